-------------------------------- MODULE Align --------------------------------
(***************************************************************************)
(* Alignment of a list of images onto the grid of the first one (C19).     *)
(*                                                                         *)
(* Images are lines of pixels.  Pixel s of image i looks at the sky at     *)
(* 2s - off[i] (half pixels, off of the first image 0), and a good pixel   *)
(* holds exactly that number.  A pixel p of the first image's grid falls   *)
(* in image i at (2p + off[i]) / 2 and is drawn from the one or two pixels *)
(* around that place.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Widths,     \* widths of images
          MaxOff,     \* offsets in half pixels, -MaxOff..MaxOff (two-sided)
          N,          \* images
          Design      \* "sound", "no-bad" (bad pixels forgotten), "no-edge" (places without data unmasked), "majority" (bad only when mostly bad),
                      \* "in-place" (the caller's images become the aligned ones), "own-grid" (aligned images keep their own width), "backwards", "last-mask", "all-bad"
BadValue == 999
VARIABLES width, off, bad, given, list, k, mask
vars == <<width, off, bad, given, list, k, mask>>
Img(i) == [grid |-> width[i], val |-> [s \in 0..(width[i] - 1) |-> IF s \in bad[i] THEN BadValue ELSE 2 * s - off[i]], bad |-> bad[i]]
Init == /\ width \in [1..N -> Widths]
        /\ off \in {[i \in 1..N |-> IF i = 1 THEN 0 ELSE f[i] - MaxOff] : f \in [2..N -> 0..(2 * MaxOff)]}
        /\ bad \in [1..N -> {{}, {1}, {0}, {1, 2}, {2}}] /\ \A i \in 1..N : \A b \in bad[i] : b < width[i]
        /\ given = [i \in 1..N |-> Img(i)] /\ list = given /\ k = 2 /\ mask = {}
(* places drawn from, in half pixels and pixels *)
Place(i, p) == IF Design = "backwards" THEN 2 * p - off[i] ELSE 2 * p + off[i]
Draws(x) == {x \div 2, (x + 1) \div 2}
Outside(i, x) == x < 0 \/ x > 2 * (width[i] - 1)
Aligned(i) ==
  LET grid == IF Design = "own-grid" THEN width[i] ELSE width[1]
      Bad(p) == LET x == Place(i, p) IN
        \/ (Design = "all-bad" /\ bad[i] # {})
        \/ (Design # "no-edge" /\ Outside(i, x))
        \/ (Design # "no-bad" /\ (IF Design = "majority" THEN \A d \in Draws(x) : d \in bad[i] ELSE \E d \in Draws(x) : d \in bad[i]))
      At(d) == IF d \in 0..(width[i] - 1) THEN list[i].val[d] ELSE 0
  IN [grid |-> grid, val |-> [p \in 0..(grid - 1) |-> LET x == Place(i, p) IN (At(x \div 2) + At((x + 1) \div 2)) \div 2], bad |-> {p \in 0..(grid - 1) : Bad(p)}]
AlignNext == /\ k <= N /\ k' = k + 1
             /\ list' = [list EXCEPT ![k] = Aligned(k)]
             /\ given' = IF Design = "in-place" THEN [given EXCEPT ![k] = Aligned(k)] ELSE given
             /\ UNCHANGED <<width, off, bad, mask>>
Combine == /\ k = N + 1 /\ k' = N + 2 /\ mask' = (IF Design = "last-mask" THEN list[N].bad ELSE UNION {list[i].bad : i \in 1..N})
           /\ UNCHANGED <<width, off, bad, given, list>>
Next == AlignNext \/ Combine
Spec == Init /\ [][Next]_vars
Done == {i \in 2..N : i < k}
GridOfFirst == \A i \in Done : list[i].grid = width[1]
FirstUnchanged == list[1] = Img(1)
CallersIntact == \A i \in 1..N : given[i] = Img(i)
(* unmasked pixels look at the same sky as the first image's *)
SkyCoincides == \A i \in Done : \A p \in 0..(list[i].grid - 1) : p \notin list[i].bad => list[i].val[p] = 2 * p
MaskCovers == \A i \in Done : \A p \in 0..(width[1] - 1) :
  (LET x == 2 * p + off[i] IN Outside(i, x) \/ \E d \in Draws(x) : d \in bad[i]) => p \in list[i].bad
GoodKept == \A i \in Done : \A p \in list[i].bad :
  (LET x == 2 * p + off[i] IN Outside(i, x) \/ \E d \in Draws(x) : d \in bad[i])
CombinedMask == k = N + 2 => \A i \in 1..N : list[i].bad \subseteq mask
===============================================================================
