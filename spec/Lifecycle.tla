------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life of one SingleImage as seen by its user (C03): parameters that  *)
(* change, quantities that are read, products that are computed lazily and *)
(* kept.                                                                   *)
(*                                                                         *)
(* Quantities depend on the parameters listed in Deps; a product kept from *)
(* an earlier read may only be reused while the parameters it depends on   *)
(* are the same.  Tracked says which parameters the implementation looks   *)
(* at before it reuses a product.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Losses, Zps, Shapes,   \* values of the parameters; 0 in Shapes: none requested
          Tracked                \* quantity -> set of parameters compared on reuse

Quantities == {"pixels", "bkgsub", "noise", "interped", "interped_hat", "positions", "n_sources", "stamps", "cov", "eigen",
               "basis", "fields", "normal", "s_hat", "s", "psf_sqnorm", "p_sqnorm",
               "psf_mid", "psf_edge"}
(* kept products; the others are computed on each read *)
Kept == {"interped", "interped_hat", "positions", "cov", "eigen", "basis", "fields",
         "normal", "s_hat", "s"}

Deps(q) ==
  CASE q \in {"pixels", "bkgsub", "noise", "interped", "interped_hat"} -> {}
    [] q \in {"positions", "n_sources", "stamps", "cov", "eigen"} -> {"shape"}
    [] q \in {"basis", "fields", "normal", "psf_sqnorm", "p_sqnorm", "psf_mid", "psf_edge"} -> {"shape", "loss"}
    [] q \in {"s_hat", "s"} -> {"shape", "loss", "zp"}

(* what has to be at hand to compute q *)
Needs(q) ==
  CASE q \in {"pixels", "bkgsub", "noise", "interped"} -> {}
    [] q = "interped_hat" -> {"interped"}
    [] q = "positions" -> {"interped"}
    [] q \in {"n_sources", "stamps"} -> {"positions"}
    [] q = "cov" -> {"positions"}
    [] q = "eigen" -> {"cov"}
    [] q = "basis" -> {"eigen"}
    [] q = "fields" -> {"basis", "eigen", "positions"}
    [] q = "normal" -> {"basis", "fields"}
    [] q = "s_hat" -> {"basis", "fields", "normal", "interped", "interped_hat"}
    [] q = "s" -> {"s_hat"}
    [] q \in {"psf_sqnorm", "p_sqnorm"} -> {"basis", "fields"}
    [] q \in {"psf_mid", "psf_edge"} -> {"basis", "fields", "normal"}
(* order in which products are made; every need comes before its user *)
Order == <<"interped", "interped_hat", "positions", "cov", "eigen", "basis", "fields", "normal", "s_hat", "s">>

RECURSIVE Closure(_)
Closure(q) == {q} \cup UNION {Closure(x) : x \in Needs(q)}
Cuts(q) == "positions" \in Closure(q)

VARIABLES loss, zp,      \* current parameters
          asked,         \* stamp shape asked for so far
          shape,         \* shape the stamps were cut with; 0 until they are cut and when none was asked for
          cut,           \* the stamps exist
          kept,          \* quantity -> parameters it was computed with, or <<>>
          out            \* what the last read returned: parameters it was computed with
lvars == <<loss, zp, asked, shape, cut, kept, out>>

NoKey == <<>>
KeyOf(q, sh, lo, z) == << IF "shape" \in Deps(q) THEN sh ELSE -1,
                          IF "loss" \in Deps(q) THEN lo ELSE -1,
                          IF "zp" \in Deps(q) THEN z ELSE -1 >>
(* is a kept product reusable as far as the implementation looks? *)
Reusable(q, k, sh, lo, z) ==
  /\ k # NoKey
  /\ "loss" \in Tracked[q] => k[2] = KeyOf(q, sh, lo, z)[2]
  /\ "zp" \in Tracked[q] => k[3] = KeyOf(q, sh, lo, z)[3]

(* A product made from stale parts is stale: its key takes the parts' loss/zp. *)
MadeFrom(q, ks, sh, lo, z) ==
  LET base == KeyOf(q, sh, lo, z)
      parts == {ks[x] : x \in Needs(q) \cap Kept}
      badloss == {p[2] : p \in {p \in parts : p[2] # -1 /\ p[2] # lo}}
      badzp == {p[3] : p \in {p \in parts : p[3] # -1 /\ p[3] # z}}
  IN << base[1],
        IF base[2] # -1 /\ badloss # {} THEN CHOOSE x \in badloss : TRUE ELSE base[2],
        IF base[3] # -1 /\ badzp # {} THEN CHOOSE x \in badzp : TRUE ELSE base[3] >>

RECURSIVE Make(_, _, _, _, _, _)
Make(i, want, ks, sh, lo, z) ==
  IF i > Len(Order) THEN ks
  ELSE LET q == Order[i]
       IN Make(i + 1, want,
               IF q \in want /\ ~Reusable(q, ks[q], sh, lo, z)
               THEN [ks EXCEPT ![q] = MadeFrom(q, ks, sh, lo, z)] ELSE ks,
               sh, lo, z)

(* cutting the stamps fixes the shape asked for so far *)
CutShape == IF cut THEN shape ELSE asked

LInit == /\ loss \in Losses /\ zp \in Zps /\ asked = 0 /\ shape = 0 /\ cut = FALSE
         /\ kept = [q \in Kept |-> NoKey] /\ out = <<"new">>

Read(q) ==
  LET sh == IF Cuts(q) THEN CutShape ELSE shape
      ks == Make(1, Closure(q), kept, sh, loss, zp)
  IN /\ q \in Quantities
     /\ kept' = ks
     /\ cut' = (cut \/ Cuts(q))
     /\ shape' = sh
     /\ out' = <<q, IF q \in Kept THEN ks[q] ELSE MadeFrom(q, ks, sh, loss, zp)>>
     /\ UNCHANGED <<loss, zp, asked>>

(* get_variable_psf(inf_loss, shape): 0 leaves a parameter alone *)
VariablePsf(lo, sh) ==
  LET l2 == IF lo = 0 THEN loss ELSE lo
      s2 == IF cut THEN shape ELSE IF sh = 0 THEN asked ELSE sh
      ks == Make(1, Closure("fields"), kept, s2, l2, zp)
  IN /\ loss' = l2
     /\ asked' = IF sh = 0 THEN asked ELSE sh
     /\ shape' = s2 /\ cut' = TRUE
     /\ kept' = ks
     /\ out' = <<"variable_psf", ks["basis"], ks["fields"]>>
     /\ UNCHANGED zp

SetLoss(lo) == loss' = lo /\ lo \in Losses /\ out' = <<"set">> /\ UNCHANGED <<zp, asked, shape, cut, kept>>
SetZp(z)    == zp' = z /\ z \in Zps /\ out' = <<"set">> /\ UNCHANGED <<loss, asked, shape, cut, kept>>

(* sources detected afresh; the stamps are cut if they were not *)
Refresh ==
  LET sh == CutShape
  IN /\ kept' = Make(1, Closure("positions"), kept, sh, loss, zp)
     /\ cut' = TRUE /\ shape' = sh /\ out' = <<"set">>
     /\ UNCHANGED <<loss, zp, asked>>

LNext == \/ \E q \in Quantities : Read(q)
         \/ \E lo \in Losses \cup {0}, sh \in Shapes : VariablePsf(lo, sh)
         \/ \E lo \in Losses : SetLoss(lo)
         \/ \E z \in Zps : SetZp(z)
         \/ Refresh
LSpec == LInit /\ [][LNext]_lvars

(* ------------------------------ properties ---------------------------- *)
(* what is read is what a fresh image with the present parameters reports *)
ReadsAreFresh ==
  /\ (out[1] \in Quantities => out[2] = KeyOf(out[1], shape, loss, zp))
  /\ (out[1] = "variable_psf" => /\ out[2] = KeyOf("basis", shape, loss, zp)
                                 /\ out[3] = KeyOf("fields", shape, loss, zp))
(* the shape of the stamps never changes once they are cut *)
ShapeFixed == [][cut => shape' = shape /\ cut']_lvars

FaithfulTracked == [q \in Kept |-> CASE q \in {"basis", "fields", "normal"} -> {"loss"}
                                     [] q \in {"s_hat", "s"} -> {"loss", "zp"}
                                     [] OTHER -> {}]
(* the code before the repairs *)
OldTracked == [q \in Kept |-> CASE q = "s_hat" -> {"loss"} [] OTHER -> {}]
==============================================================================
