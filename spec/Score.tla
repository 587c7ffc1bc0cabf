-------------------------------- MODULE Score --------------------------------
(***************************************************************************)
(* Detection on a score map (C14).  A pixel is <<row, column>>, from 0.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

CONSTANTS H, W, Design    \* "merge", "no-merge" (U shapes stay split), "corners" (corner contacts join)
VARIABLES on, lab, at, nextlab
vars == <<on, lab, at, nextlab>>
Cells == (0..(H-1)) \X (0..(W-1))
(* ------------------------------ promised ------------------------------- *)
Touch(a, b) == (a[1] = b[1] /\ (a[2] - b[2]) \in {-1, 1}) \/ (a[2] = b[2] /\ (a[1] - b[1]) \in {-1, 1})
Cross(f) == {<<f[1] - 1, f[2]>>, <<f[1] + 1, f[2]>>, <<f[1], f[2] - 1>>, <<f[1], f[2] + 1>>}
RECURSIVE Spread(_, _, _)
Spread(S, all, front) ==
  CHOOSE y \in {IF more = {} THEN all ELSE Spread(S, all \cup more, more) : more \in {((UNION {Cross(f) : f \in front}) \cap S) \ all}} : TRUE
RECURSIVE Groups(_)
Groups(S) == IF S = {} THEN {} ELSE CHOOSE y \in {{g} \cup Groups(S \ g) : g \in {Spread(S, {c}, {c}) : c \in {CHOOSE c \in S : TRUE}}} : TRUE
(* the neighbourhood is the contact relation *)
CrossIsTouch == at = 0 => \A a, b \in Cells : Touch(a, b) <=> b \in Cross(a)

(* ----------- a scan in raster order, merging what it has split --------- *)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Nb(c) == {d \in Cells : Before(d, c) /\ (Touch(d, c) \/ (Design = "corners" /\ d[1] = c[1] - 1 /\ (d[2] - c[2]) \in {-1, 0, 1}))}
Init == on \in SUBSET Cells /\ lab = [c \in Cells |-> 0] /\ at = 0 /\ nextlab = 1
Scan == /\ at < H * W
        /\ LET c == <<at \div W, at % W>>
               ls == {lab[d] : d \in Nb(c)} \ {0} IN
           IF c \notin on THEN UNCHANGED <<lab, nextlab>>
           ELSE IF ls = {} THEN lab' = [lab EXCEPT ![c] = nextlab] /\ nextlab' = nextlab + 1
           ELSE LET l == CHOOSE m \in ls : \A k \in ls : m <= k IN
                /\ lab' = [d \in Cells |-> IF d = c \/ (Design # "no-merge" /\ lab[d] \in ls) THEN l ELSE lab[d]]
                /\ UNCHANGED nextlab
        /\ at' = at + 1 /\ UNCHANGED on
Next == Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Labelled == {{c \in Cells : lab[c] = l} : l \in {lab[c] : c \in Cells} \ {0}}
ScanIsGroups == at = H * W => Labelled = Groups(on)
(* the labelled pixels so far are never joined across different groups *)
Sound == \A a, b \in Cells : lab[a] # 0 /\ lab[a] = lab[b] => \E g \in Groups(on) : a \in g /\ b \in g
Partition == at = 0 => (UNION Groups(on) = on /\ \A g, h \in Groups(on) : g = h \/ g \cap h = {})
Ends == <>(at = H * W)
===============================================================================
