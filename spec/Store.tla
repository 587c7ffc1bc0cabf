-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Stored products: what a file holds after a history of stores (C18).     *)
(*                                                                         *)
(* An array has pixels, perhaps with an imaginary part, and perhaps a mask;*)
(* "nomask" arrays can be masked but have no mask array, "empty" ones have *)
(* one that masks nothing.  A destination is a path or memory.  A file is  *)
(* what the last store to its path put there, and nothing else.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Paths, Most,
          Design   \* "sound", "appends" (extensions of an older file stay), "refuses" (no mask array, nothing stored),
                   \* "fills" (masked pixels lose their values), "inplace" (caller's array loses its imaginary part)
Memory == "memory"
Kinds == {"plain", "nomask", "empty", "partial"}
Masked(k) == k # "plain"
(* two pixels; n numbers the content; the second pixel of partial arrays is bad *)
Array(k, cx, n) == [kind |-> k, pix |-> <<n, n + 1>>, imag |-> IF cx THEN <<7, 7>> ELSE <<0, 0>>,
                    bad |-> CASE k = "partial" -> {2} [] OTHER -> {}]
Nothing == [there |-> FALSE, pix |-> <<>>, ext |-> FALSE, bad |-> {}]
(* what storing an array makes of it *)
Product(a) ==
  [there |-> TRUE, pix |-> IF Design = "fills" THEN [i \in 1..2 |-> IF i \in a.bad THEN 0 ELSE a.pix[i]] ELSE a.pix,
   ext |-> Masked(a.kind), bad |-> a.bad]
VARIABLES disk, mem, hist, caller
vars == <<disk, mem, hist, caller>>
Init == /\ disk = [p \in Paths |-> Nothing] /\ mem = Nothing /\ hist = <<>> /\ caller = <<>>
Store(k, cx, d) ==
  LET a == Array(k, cx, 10 * (Len(hist) + 1))
      p == Product(a)
      old == IF d = Memory THEN mem ELSE disk[d]
      new == IF Design = "refuses" /\ k = "nomask" THEN old
             ELSE IF Design = "appends" /\ d # Memory /\ old.there /\ old.ext /\ ~p.ext THEN [p EXCEPT !.ext = TRUE, !.bad = old.bad] ELSE p
  IN /\ hist' = Append(hist, <<k, cx, d>>)
     /\ caller' = Append(caller, IF Design = "inplace" THEN [a EXCEPT !.imag = <<0, 0>>] ELSE a)
     /\ (IF d = Memory THEN mem' = new /\ UNCHANGED disk ELSE disk' = [disk EXCEPT ![d] = new] /\ UNCHANGED mem)
Next == Len(hist) < Most /\ \E k \in Kinds, cx \in BOOLEAN, d \in Paths \cup {Memory} : Store(k, cx, d)
Spec == Init /\ [][Next]_vars
(* the last store to a destination, 0 if none *)
LastTo(h, d) == LET S == {i \in DOMAIN h : h[i][3] = d} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
At(d) == IF d = Memory THEN mem ELSE disk[d]
ReadsBack == \A d \in Paths \cup {Memory} : LET i == LastTo(hist, d) IN
  (IF i = 0 THEN At(d) = Nothing
   ELSE LET a == Array(hist[i][1], hist[i][2], 10 * i) IN At(d).there /\ At(d).pix = a.pix /\ At(d).ext = Masked(a.kind) /\ At(d).bad = a.bad)
CallerUntouched == \A i \in DOMAIN hist : caller[i] = Array(hist[i][1], hist[i][2], 10 * i)
(* a mask read back from a product restores at least the bad pixels *)
MaskRestored == \A d \in Paths : LET i == LastTo(hist, d) IN i # 0 => Array(hist[i][1], hist[i][2], 10 * i).bad \subseteq At(d).bad
===============================================================================
