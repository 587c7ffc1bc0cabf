------------------------------- MODULE ProperMC -------------------------------
(***************************************************************************)
(* Laws of the two statistics, checked on their terms for all values of    *)
(* the inputs in a field of Q elements, one frequency at a time (there a   *)
(* transform is the identity and a displacement a unit factor, here 1).    *)
(* Square roots are compared through squares.                              *)
(***************************************************************************)
EXTENDS Proper, FiniteSets
CONSTANTS Q, Noises, Pixels, Psfs, Kinds, Broken   \* Broken: "" or the name of a deliberately wrong statistic
F == 0..(Q - 1)
Inv(a) == CHOOSE b \in F : (a * b) % Q = 1
Root(a) == IF \E b \in F : (b * b) % Q = a % Q THEN CHOOSE b \in F : (b * b) % Q = a % Q ELSE -1
RECURSIVE Ev(_, _)
Ev(t, e) ==
  LET A == Ev(t[2], e) B == Ev(t[3], e) IN
  CASE t[1] = "v" -> e[t[2]]
    [] t[1] = "n" -> t[2] % Q
    [] t[1] = "add" -> IF A < 0 \/ B < 0 THEN -1 ELSE (A + B) % Q
    [] t[1] = "sub" -> IF A < 0 \/ B < 0 THEN -1 ELSE (A - B + Q) % Q
    [] t[1] = "mul" -> IF A < 0 \/ B < 0 THEN -1 ELSE (A * B) % Q
    [] t[1] = "div" -> IF A < 0 \/ B <= 0 THEN -1 ELSE (A * Inv(B)) % Q
    [] t[1] = "sqrt" -> IF A < 0 THEN -1 ELSE Root(A)
    [] t[1] \in {"fft", "ifft", "fftp", "ifftp", "conj", "real", "guard", "shift", "roll", "field", "neg", "sum"} -> A
    [] t[1] = "blur" -> IF A < 0 \/ B < 0 THEN -1 ELSE (A * B) % Q
    [] OTHER -> 0
RECURSIVE Run(_, _)
Run(p, e) == IF p = <<>> THEN e ELSE Run(Tail(p), (Head(p)[1] :> Ev(Head(p)[2], e)) @@ e)

(* ------------------------------ subtraction ---------------------------- *)
VARIABLES s, kind
SubIn(x) == [psfr |-> x.pr, psfn |-> x.pn, cleanr |-> x.r, cleann |-> x.n, sr |-> x.sr, sn |-> x.sn, b |-> x.b,
             dy |-> 0, dx |-> 0, zn |-> 1, filledn |-> 1, filledr |-> 1]
Swap(x) == [x EXCEPT !.pr = x.pn, !.pn = x.pr, !.r = x.n, !.n = x.r, !.sr = x.sn, !.sn = x.sr, !.b = Inv(x.b)]
Core == SubSeq(SubtractProgram, 1, 9)   \* down to P
Wrong(p) == [j \in DOMAIN p |-> IF p[j][1] # "norm" THEN p[j]
   ELSE <<"norm", Add(Mul(Sq(V("sn")), Norm2(V("pr"))), Mul(V("b"), Mul(Sq(V("sr")), Norm2(V("pn")))))>>]
P0 == IF Broken = "norm" THEN Wrong(Core) ELSE Core
Ok(e, names) == \A y \in names : e[y] >= 0
Two(a) == (a * a) % Q
SwapNegates ==
  kind = "sub" => LET e == Run(P0, SubIn(s)) f == Run(P0, SubIn(Swap(s))) IN
    Ok(e, {"Dhat"}) /\ Ok(f, {"Dhat"}) =>
      /\ Two(e["Dhat"]) = Two(f["Dhat"])
      \* numerators: b' * (Dn' - b' Dr') = -b' b' ... : b * num' = -num
      /\ (s.b * Ev(Sub(V("Dn"), Mul(V("b"), V("Dr"))), f) + Ev(Sub(V("Dn"), Mul(V("b"), V("Dr"))), e)) % Q = 0
SwapKeepsPsf ==
  kind = "sub" => LET e == Run(P0, SubIn(s)) f == Run(P0, SubIn(Swap(s))) IN
    Ok(e, {"Phat"}) /\ Ok(f, {"Phat"}) => Two(e["Phat"]) = Two(f["Phat"])
(* a source seen only in the new image appears as its PSF's transform, scaled *)
NewSource ==
  kind = "sub" => LET x == [s EXCEPT !.r = 0, !.n = s.pn] e == Run(P0, SubIn(x)) IN
    Ok(e, {"Dhat", "Phat", "dzp"}) => (e["Dhat"] * s.b) % Q = (e["Phat"] * e["dzp"]) % Q
SelfIsZero ==
  kind = "sub" => LET x == [s EXCEPT !.r = s.n, !.pr = s.pn, !.sr = s.sn, !.b = 1] e == Run(P0, SubIn(x)) IN
    Ok(e, {"Dhat"}) => e["Dhat"] = 0
(* scaling the reference by c, its PSF flux convention kept, and b by 1/c changes nothing *)
ScaleFree ==
  kind = "sub" => \A c \in 1..(Q - 1) : LET x == [s EXCEPT !.r = (s.r * c) % Q, !.sr = (s.sr * c) % Q, !.b = (s.b * Inv(c)) % Q]
                                            e == Run(P0, SubIn(s)) f == Run(P0, SubIn(x)) IN
    Ok(e, {"Dhat", "Phat"}) /\ Ok(f, {"Dhat", "Phat"}) => /\ Two(e["Dhat"]) = Two(f["Dhat"]) /\ Two(e["Phat"]) = Two(f["Phat"])

(* ------------------------------- coaddition ---------------------------- *)
CoIn(xs) == [y \in UNION {{Of(i, "zp"), Of(i, "sigma"), Of(i, "clean"), CompName(i, 1)} : i \in DOMAIN xs} \cup {"box"} |->
              IF y = "box" THEN 1 ELSE LET i == CHOOSE i \in DOMAIN xs : y \in {Of(i, "zp"), Of(i, "sigma"), Of(i, "clean"), CompName(i, 1)}
              IN CASE y = Of(i, "zp") -> xs[i].zp [] y = Of(i, "sigma") -> xs[i].sg [] y = Of(i, "clean") -> xs[i].c [] OTHER -> xs[i].p]
WrongC(p) == [j \in DOMAIN p |-> IF p[j][1] # "1shat" /\ p[j][1] # "shat1" THEN p[j] ELSE <<p[j][1], Mul(V("zp1"), p[j][2])>>]
CP(n) == LET p == CoaddProgram([i \in 1..n |-> 1]) IN IF Broken = "weight" THEN WrongC(p) ELSE p
R2(xs) == LET e == Run(CP(Len(xs)), CoIn(xs)) IN IF e["S"] < 0 \/ e["P2"] <= 0 THEN -1 ELSE (Two(e["S"]) * Inv(e["P2"])) % Q
OrderFree == kind = "coadd" => R2(<<s.x, s.y>>) = R2(<<s.y, s.x>>)
(* image scaled with its zero point and noise by c : same weight, same coadd *)
UnitFree == kind = "coadd" => \A c \in 1..(Q - 1) : LET x == [s.x EXCEPT !.c = (@ * c) % Q, !.sg = (@ * c) % Q, !.zp = (@ * c) % Q] IN
              R2(<<x, s.y>>) = R2(<<s.x, s.y>>)
(* two equal images give the square root of two of one *)
Doubling == kind = "coadd" => LET one == R2(<<s.x>>) two == R2(<<s.x, s.x>>) IN (one >= 0 /\ two >= 0) => two = (2 * one) % Q

U == 1..(Q - 1)
Init == \/ kind = "sub?" /\ kind \in Kinds /\ s \in [pr : Psfs, pn : Psfs, b : U]
        \/ kind = "coadd?" /\ kind \in Kinds /\ s \in [zp : U, sg : Noises, c : Pixels, p : Psfs]
Next == \/ /\ kind = "sub?" /\ kind' = "sub"
           /\ \E r, n \in Pixels, sr, sn \in Noises : s' = s @@ [r |-> r, n |-> n, sr |-> sr, sn |-> sn]
        \/ /\ kind = "coadd?" /\ kind' = "coadd"
           /\ \E y \in [zp : Noises, sg : Noises, c : Pixels, p : Psfs] : s' = [x |-> s, y |-> y]
(* the laws say something: some state has every root they speak of *)
Vacuous == kind = "sub" => ~Ok(Run(P0, SubIn(s)), {"Dhat", "Phat"})
VacuousCoadd == kind = "coadd" => R2(<<s.x, s.y>>) < 0
===============================================================================
