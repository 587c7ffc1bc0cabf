-------------------------------- MODULE Proper --------------------------------
(***************************************************************************)
(* The closed forms of proper coaddition (C09) and proper subtraction      *)
(* (C12), as terms over named images.  A program is a sequence of          *)
(* definitions <<name, term>>, each over the names defined before it and   *)
(* over the inputs.  The same terms are                                    *)
(*   - interpreted here, one frequency at a time, in a finite field, where *)
(*     the algebraic laws of the two statistics are checked for every      *)
(*     value of the inputs (ProperMC), and                                 *)
(*   - emitted and interpreted over real pixel arrays next to the          *)
(*     implementation (ProperGen), which must return the same arrays.      *)
(*                                                                         *)
(* Operators: v name; n integer; add sub mul div; conj; sqrt; round; real  *)
(* fft (unitary, of a stamp padded to the frame at its first corner);      *)
(* fftp (same without the unitary factor); ifft (unitary); ifftp;          *)
(* shift a y x (multiply the transform by the phase of a displacement);    *)
(* comy comx (centre of mass); ctry ctrx (centre of mass, or the peak when *)
(* the two are over 30 pixels apart); sum; roll a y x (whole pixels);      *)
(* guard (a zero real part is made the smallest positive step); field      *)
(* (a polynomial over the frame); blur (convolution by a stamp, mirrored   *)
(* at the edges); frame (the constant frame); msum m a (sum of the         *)
(* magnitudes of a over the pixels m leaves free).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

V(x) == <<"v", x>>
K(k) == <<"n", k>>
Add(a, b) == <<"add", a, b>>
Sub(a, b) == <<"sub", a, b>>
Mul(a, b) == <<"mul", a, b>>
Div(a, b) == <<"div", a, b>>
Conj(a) == <<"conj", a>>
Sqrt(a) == <<"sqrt", a>>
Fft(a) == <<"fft", a>>
Ifft(a) == <<"ifft", a>>
Shift(a, y, x) == <<"shift", a, y, x>>
Sq(a) == Mul(a, a)
Norm2(a) == Mul(a, Conj(a))
Real(a) == <<"real", a>>

(* --------------------------- proper coaddition ------------------------- *)
Of(i, what) == what \o ToString(i)
(* image i seen through k components; k = 1 : one PSF for the whole frame *)
CompName(i, c) == "psf" \o ToString(i) \o "_" \o ToString(c)
FieldName(i, c) == "a" \o ToString(i) \o "_" \o ToString(c)
RECURSIVE Sum(_)
Sum(ts) == IF Len(ts) = 1 THEN ts[1] ELSE Add(Sum(SubSeq(ts, 1, Len(ts) - 1)), ts[Len(ts)])
Weighted(i, c) == Div(Mul(V(Of(i, "clean")), <<"field", V(FieldName(i, c))>>), V(Of(i, "nrm")))
MatchedComponent(i, c, k) ==
  Shift(Mul(IF k = 1 THEN Fft(V(Of(i, "clean"))) ELSE Fft(Weighted(i, c)), Conj(Fft(V(CompName(i, c))))),
        <<"comy", V(CompName(i, 1))>>, <<"comx", V(CompName(i, 1))>>)
ImageProgram(i, k) ==
  (IF k = 1 THEN <<>>
   ELSE <<<<Of(i, "nrm"), Sum([c \in 1..k |-> <<"blur", <<"field", V(FieldName(i, c))>>, V(CompName(i, c))>>])>>>>)
  \o << <<Of(i, "shat"), Mul(Div(V(Of(i, "zp")), Sq(V(Of(i, "sigma")))), Sum([c \in 1..k |-> MatchedComponent(i, c, k)]))>>,
        <<Of(i, "phat2"), Mul(Sq(Div(V(Of(i, "zp")), V(Of(i, "sigma")))), Sum([c \in 1..k |-> Norm2(Fft(V(CompName(i, c))))]))>> >>
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
(* ks[i] components in image i *)
CoaddProgram(ks) ==
  Flat([i \in 1..Len(ks) |-> ImageProgram(i, ks[i])])
  \o << <<"S", Sum([i \in 1..Len(ks) |-> V(Of(i, "shat"))])>>,
        <<"P2", Sum([i \in 1..Len(ks) |-> V(Of(i, "phat2"))])>>,
        <<"R", <<"ifftp", Div(V("S"), Sqrt(V("P2")))>>>>,
        <<"P0", <<"ifftp", Shift(Sqrt(V("P2")), V("box"), V("box"))>>>>,
        <<"P", Div(V("P0"), <<"sum", V("P0")>>)>> >>

(* --------------------------- proper subtraction ------------------------ *)
SubtractStart ==
  << <<"pr", <<"guard", Fft(V("psfr"))>>>>, <<"pn", <<"guard", Fft(V("psfn"))>>>>,
     <<"Dr", Shift(Mul(V("pn"), Fft(V("cleanr"))), <<"neg", <<"comy", V("psfn")>>>>, <<"neg", <<"comx", V("psfn")>>>>)>>,
     <<"Dn", Shift(Mul(V("pr"), Fft(V("cleann"))), <<"neg", <<"comy", V("psfr")>>>>, <<"neg", <<"comx", V("psfr")>>>>)>>,
     <<"norm", Add(Mul(Sq(V("sn")), Norm2(V("pr"))), Mul(Sq(V("b")), Mul(Sq(V("sr")), Norm2(V("pn")))))>> >>
DhatTerm == Div(Sub(V("Dn"), Shift(Mul(V("b"), V("Dr")), V("dy"), V("dx"))), Sqrt(V("norm")))
DzpTerm == Div(V("b"), Sqrt(Add(Mul(Sq(V("sr")), Sq(V("b"))), Sq(V("sn")))))
PhatTerm == Div(Mul(Mul(V("pr"), V("pn")), V("b")), Mul(Sqrt(V("norm")), V("dzp")))
Var(k, data) == Ifft(Mul(Fft(Add(V(data), K(1))), <<"fftp", Sq(V(k))>>))
SubtractProgram ==
  SubtractStart \o
  << <<"Dhat", DhatTerm>>, <<"D", Ifft(V("Dhat"))>>,
     <<"dzp", DzpTerm>>, <<"Phat", PhatTerm>>, <<"P", Real(Ifft(V("Phat")))>>,
     <<"Shat", Shift(Mul(Mul(V("dzp"), V("Dhat")), Conj(V("Phat"))), <<"ctry", V("P")>>, <<"ctrx", V("P")>>)>>,
     <<"kr", Ifft(Div(Mul(Mul(V("zn"), V("b")), Mul(Conj(V("pr")), Norm2(V("pn")))), V("norm")))>>,
     <<"kn", Ifft(Div(Mul(V("zn"), Mul(Conj(V("pn")), Norm2(V("pr")))), V("norm")))>>,
     <<"V", Add(Var("kn", "filledn"), Var("kr", "filledr"))>>,
     <<"Scorr", Real(Div(Ifft(V("Shat")), Sqrt(V("V"))))>> >>
(* the residual whose size the scale and shift are to minimise *)
CostProgram ==
  SubtractStart \o
  << <<"gam", Div(Sub(V("backn"), V("backr")), Sqrt(Add(Sq(V("sn")), Mul(Sq(V("b")), Sq(V("sr"))))))>>,
     <<"res", Sub(Sub(Ifft(Div(V("Dn"), Sqrt(V("norm")))),
                      Mul(V("b"), Ifft(Shift(Div(V("Dr"), Sqrt(V("norm"))), V("dy"), V("dx"))))),
                  <<"roll", V("gam"), <<"round", V("dy")>>, <<"round", V("dx")>>>>)>>,
     <<"cost", <<"msum", V("mask"), Real(V("res"))>>>> >>

(* ------------------- where the scale and shift come from --------------- *)
(* what is asked of a minimiser: "both", "scale", "shift" or nothing *)
Asked(o) == IF o.beta /\ o.shift THEN "both" ELSE IF o.beta THEN "scale" ELSE IF o.shift THEN "shift" ELSE "nothing"
Unknowns(a) == CASE a = "both" -> <<"b", "dy", "dx">> [] a = "scale" -> <<"b">> [] a = "shift" -> <<"dy", "dx">> [] OTHER -> <<>>
(* tenths; zero-point ratio in use when nothing better is known *)
Lower(u) == IF u = "b" THEN 1 ELSE -9
Upper(u) == IF u = "b" THEN 100 ELSE 9
(* found = values a successful minimiser gave to the unknowns, <<>> if it failed *)
InForce(a, u, found, zpratio) ==
  LET us == Unknowns(a) IN
  IF found # <<>> /\ \E j \in DOMAIN us : us[j] = u THEN found[CHOOSE j \in DOMAIN us : us[j] = u]
  ELSE IF u = "b" THEN zpratio ELSE 0
===============================================================================
