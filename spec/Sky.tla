--------------------------------- MODULE Sky ---------------------------------
(***************************************************************************)
(* What an image says comes from its good pixels alone (C21).              *)
(*                                                                         *)
(* Four images on one line of pixels, with the same bad ones: the image,   *)
(* its twin (other values stored in the bad pixels), the image with the    *)
(* sky raised, and the image scaled.  All go through the same stages: sky  *)
(* level, noise, sources, cleaned pixels, and the image registered half a  *)
(* pixel away, with a kernel wider than the pixels whose badness counts.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W,        \* pixels
          Values,   \* of good pixels
          Hidden,   \* stored in bad pixels
          Raise, Scale,
          Leak      \* the stage that looks at bad pixels, or "none"
VARIABLES val, bad, stage, out
vars == <<val, bad, stage, out>>
Pix == 0..(W - 1)
Good == Pix \ bad
Stages == <<"sky", "noise", "detect", "clean", "register", "end">>
Who == {"image", "twin", "raised", "scaled"}
Init == /\ bad \in {b \in SUBSET Pix : Cardinality(Pix \ b) >= 3}
        /\ \E g \in [Pix -> Values], h, t \in Hidden :
             /\ \A p \in bad : g[p] = CHOOSE v \in Values : TRUE
             /\ val = [image |-> [p \in Pix |-> IF p \in bad THEN h ELSE g[p]],
                       twin |-> [p \in Pix |-> IF p \in bad THEN t ELSE g[p]],
                       raised |-> [p \in Pix |-> IF p \in bad THEN t ELSE g[p] + Raise],
                       scaled |-> [p \in Pix |-> IF p \in bad THEN h ELSE Scale * g[p]]]
        /\ stage = 1 /\ out = [w \in Who |-> [sky |-> 0, noise |-> 0, detect |-> {}, clean |-> <<>>, register |-> <<>>]]

(* lower median of f over a set of pixels *)
Median(f, S) == LET n == Cardinality(S)
                    below(p) == Cardinality({r \in S : f[r] < f[p] \/ (f[r] = f[p] /\ r < p)})
                IN f[CHOOSE p \in S : below(p) = (n - 1) \div 2]
Of(name) == IF Leak = name THEN Pix ELSE Good
AbsV(x) == IF x < 0 THEN -x ELSE x
Sky(v) == Median(v, Of("sky"))
Noise(v, o) == Median([p \in Pix |-> AbsV(v[p] - o.sky)], Of("noise"))
(* response to the filter; bad pixels count as sky *)
Above(v, o, p) == IF p \notin Pix \/ p \notin Of("detect") THEN 0 ELSE v[p] - o.sky
Detect(v, o) == {p \in Good : Above(v, o, p - 1) + 2 * Above(v, o, p) + Above(v, o, p + 1) > 4 * o.noise}
(* a bad pixel becomes the mean of the good ones around it (times 6)       *)
Clean(v, o) == [p \in Pix |->
  LET S == {r \in Of("clean") : AbsV(r - p) <= 1}
      T == IF S = {} THEN Of("clean") ELSE S
      Sum[K \in SUBSET T] == IF K = {} THEN 0 ELSE LET r == CHOOSE r \in K : TRUE IN v[r] - o.sky + Sum[K \ {r}]
  IN IF p \in Good THEN 6 * (v[p] - o.sky) ELSE (6 * Sum[T]) \div Cardinality(T)]
(* between p and p+1; bad when either is bad, though p-1 and p+2 weigh in  *)
Register(v, o) == LET f(p) == IF p \notin Pix THEN o.sky ELSE IF p \in Of("register") THEN v[p] ELSE o.sky
                  IN [p \in 0..(W - 2) |-> IF {p, p + 1} \subseteq Good THEN 9 * f(p) + 9 * f(p + 1) - f(p - 1) - f(p + 2) ELSE "bad"]
Do(w) == LET v == val[w] o == out[w] IN
  CASE Stages[stage] = "sky" -> [o EXCEPT !.sky = Sky(v)]
    [] Stages[stage] = "noise" -> [o EXCEPT !.noise = Noise(v, o)]
    [] Stages[stage] = "detect" -> [o EXCEPT !.detect = Detect(v, o)]
    [] Stages[stage] = "clean" -> [o EXCEPT !.clean = Clean(v, o)]
    [] OTHER -> [o EXCEPT !.register = Register(v, o)]
Next == /\ stage < Len(Stages) /\ stage' = stage + 1 /\ out' = [w \in Who |-> Do(w)] /\ UNCHANGED <<val, bad>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Blind == out["image"] = out["twin"]
Passed(s) == \E i \in 1..(stage - 1) : Stages[i] = s
ShiftLaw == LET a == out["image"] b == out["raised"] IN
  /\ Passed("sky") => b.sky = a.sky + Raise
  /\ b.noise = a.noise /\ b.detect = a.detect /\ b.clean = a.clean
ScaleLaw == LET a == out["image"] b == out["scaled"] IN
  /\ b.sky = Scale * a.sky /\ b.noise = Scale * a.noise /\ b.detect = a.detect
  /\ Passed("clean") => \A p \in Good : b.clean[p] = Scale * a.clean[p]
(* a constant sky is what it is, without noise nor sources                 *)
Constant == \A p, r \in Good : val["image"][p] = val["image"][r]
ConstantSky == (Constant /\ Passed("detect")) => LET a == out["image"] IN
  a.noise = 0 /\ a.detect = {} /\ \A p \in Good : a.sky = val["image"][p]
GoodKept == Passed("clean") => \A w \in Who : \A p \in Good : out[w].clean[p] = 6 * (val[w][p] - out[w].sky)
Between == Passed("sky") => \E p, r \in Good : val["image"][p] <= out["image"].sky /\ out["image"].sky <= val["image"][r]
Finishes == <>(stage = Len(Stages))
==============================================================================
