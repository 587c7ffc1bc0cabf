-------------------------------- MODULE Stamps --------------------------------
(***************************************************************************)
(* Choice and storage of star stamps (C05): candidates are examined one by *)
(* one, those accepted get a position and an entry in the stamp store.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS FewLimit,    \* with at most this many candidates strict picking is off
          KeepLimit    \* rejected ones leave the catalogue when at least this many remain

Rejections == {"offcentre", "rough", "dominated", "several", "sigoffcentre"}
Effective(strict, n) == strict /\ n > FewLimit
Accepted(strict, cands) ==
  {k \in DOMAIN cands : Effective(strict, Len(cands)) => cands[k] = "good"}

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
(* what is promised *)
Picked(strict, cands) == Ascending(Accepted(strict, cands))
CatalogueAfter(strict, cands, picked) ==
  IF Len(picked) >= KeepLimit THEN picked ELSE [k \in DOMAIN cands |-> k]

(* ------------------------------- the loop ------------------------------ *)
CONSTANTS MaxCand, Kinds,
          Guarded     \* FALSE: every access cuts the stamps once more
VARIABLES cands, strict, k, pos, store, todel, cat, cut, asked, reads
vars == <<cands, strict, k, pos, store, todel, cat, cut, asked, reads>>

Init == /\ cands \in UNION {[1..n -> Kinds] : n \in 0..MaxCand}
        /\ strict \in BOOLEAN
        /\ k = 0 /\ pos = <<>> /\ store = <<>> /\ todel = {} /\ cut = FALSE /\ reads = 0 /\ asked = FALSE
        /\ cat = [i \in DOMAIN cands |-> i]
(* a quantity made of stamps is read, maybe after a shape was asked for *)
Access(a) ==
  /\ k = 0 /\ reads < 2 /\ reads' = reads + 1
  /\ asked' = (asked \/ a)
  /\ IF ~cut \/ (~Guarded /\ asked')
     THEN k' = 1 /\ pos' = <<>> /\ todel' = {} /\ UNCHANGED <<cands, strict, store, cat, cut>>
     ELSE UNCHANGED <<cands, strict, k, pos, store, todel, cat, cut>>
Examine ==
  /\ k \in 1..Len(cat)
  /\ IF ~Effective(strict, Len(cat)) \/ cands[cat[k]] = "good"
     THEN pos' = Append(pos, cat[k]) /\ store' = Append(store, cat[k]) /\ UNCHANGED todel
     ELSE todel' = todel \cup {k} /\ UNCHANGED <<pos, store>>
  /\ k' = k + 1
  /\ UNCHANGED <<cands, strict, cat, cut, asked, reads>>
Finish ==
  /\ k = Len(cat) + 1 /\ k > 0
  /\ cat' = IF Len(cat) - Cardinality(todel) >= KeepLimit THEN pos ELSE cat
  /\ cut' = TRUE /\ k' = 0
  /\ UNCHANGED <<cands, strict, pos, store, todel, asked, reads>>
Next == (\E a \in BOOLEAN : Access(a)) \/ Examine \/ Finish
Spec == Init /\ [][Next]_vars

Idle == cut /\ k = 0
PickedAsPromised == Idle => pos = Picked(strict, cands)
StoreAgrees == Idle => store = pos
CatalogueAsPromised == Idle => cat = CatalogueAfter(strict, cands, pos)
InOrder == \A i \in 1..(Len(pos)-1) : pos[i] < pos[i+1]
CutOnce == [][Idle => (pos' = pos /\ store' = store /\ cat' = cat)]_vars
===============================================================================
