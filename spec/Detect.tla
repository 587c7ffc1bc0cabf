-------------------------------- MODULE Detect --------------------------------
(***************************************************************************)
(* Source detection (C06): the ladder of thresholds and the quality filter *)
(*                                                                         *)
(* An outcome of an attempt is the number of sources found, or Raises.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Raises == -1
Default == <<8, 9>>   \* threshold in background rms, least area
High    == <<35, 9>>
Low     == <<3, 5>>
LowBig  == <<3, 9>>

(* ------------------------- what is promised --------------------------- *)
First(o)      == IF o.default # Raises THEN o.default ELSE o.high
NeedsLow(o, min) == First(o) # Raises /\ First(o) < min
Second(o)     == IF o.low # Raises THEN o.low ELSE o.lowbig
CallsOf(o, min) ==
  <<Default>> \o (IF o.default = Raises THEN <<High>> ELSE <<>>)
              \o (IF NeedsLow(o, min) THEN <<Low>> \o (IF o.low = Raises THEN <<LowBig>> ELSE <<>>) ELSE <<>>)
(* "sep": the detector's own failure comes out; "refused": ValueError *)
ResultOf(o, min) ==
  IF First(o) = Raises THEN "sep"
  ELSE IF ~NeedsLow(o, min) THEN IF First(o) < 2 THEN "refused" ELSE "first"
  ELSE IF Second(o) = Raises THEN "sep"
  ELSE LET n == IF First(o) > Second(o) THEN First(o) ELSE Second(o)
       IN IF n < 2 THEN "refused"
          ELSE IF First(o) > Second(o) THEN "first"
          ELSE IF First(o) < Second(o) THEN "second" ELSE "either"

(* ------------------------------ the filter ----------------------------- *)
(* q-th percentile of an ascending sequence times 100, interpolated        *)
Pct100(s, q) ==
  LET h == (Len(s) - 1) * q
      k == h \div 100
      r == h % 100
  IN IF r = 0 THEN 100 * s[k + 1] ELSE s[k + 1] * (100 - r) + s[k + 2] * r
(* interpolated between different values: rounding may decide equality *)
Interpolated(s, q) ==
  LET h == (Len(s) - 1) * q  k == h \div 100  r == h % 100
  IN r # 0 /\ s[k + 1] # s[k + 2]
AtLeast(v, s, q)   == 100 * v >= Pct100(s, q)
AtMost(v, s, q)    == 100 * v <= Pct100(s, q)
Unsure(v, s, q)    == Interpolated(s, q) /\ 100 * v = Pct100(s, q)
Few == 5
Most == 1800

(* ------------------------------ the ladder ----------------------------- *)
CONSTANTS Found,      \* possible numbers of sources
          Minimum,    \* possible minimum numbers of sources
          KeepLonger  \* FALSE: the catalogue of the low threshold always wins
VARIABLES o, min, pc, calls, srcs, old, result
vars == <<o, min, pc, calls, srcs, old, result>>
Out == Found \cup {Raises}
Init == /\ o \in [default : Out, high : Out, low : Out, lowbig : Out] /\ min \in Minimum
        /\ pc = "default" /\ calls = <<>> /\ srcs = "none" /\ old = 0 /\ result = "none"
N(which) == CASE which = "default" -> o.default [] which = "high" -> o.high
              [] which = "low" -> o.low [] which = "lowbig" -> o.lowbig
Try(at, call, onfail, onok) ==
  /\ pc = at /\ calls' = Append(calls, call)
  /\ IF N(at) = Raises THEN pc' = onfail /\ UNCHANGED srcs
     ELSE pc' = onok /\ srcs' = at
  /\ result' = IF N(at) = Raises /\ onfail = "failed" THEN "sep" ELSE result
  /\ UNCHANGED <<o, min, old>>
Next ==
  \/ Try("default", Default, "high", "count")
  \/ Try("high", High, "failed", "count")
  \/ /\ pc = "count" /\ old' = N(srcs)
     /\ pc' = IF N(srcs) < min THEN "low" ELSE "judge"
     /\ UNCHANGED <<o, min, calls, srcs, result>>
  \/ Try("low", Low, "lowbig", "compare")
  \/ Try("lowbig", LowBig, "failed", "compare")
  \/ /\ pc = "compare" /\ pc' = "judge"
     /\ srcs' = IF KeepLonger /\ old > N(srcs) THEN (IF o.default # Raises THEN "default" ELSE "high") ELSE srcs
     /\ UNCHANGED <<o, min, calls, old, result>>
  \/ /\ pc = "judge" /\ pc' = "done"
     /\ result' = IF N(srcs) < 2 THEN "refused" ELSE IF srcs \in {"default", "high"} THEN "first" ELSE "second"
     /\ UNCHANGED <<o, min, calls, srcs, old>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == pc \in {"done", "failed"}
LadderAsPromised == Over => calls = CallsOf(o, min)
ResultAsPromised == Over => \/ result = ResultOf(o, min)
                            \/ ResultOf(o, min) = "either" /\ result \in {"first", "second"}
(* a failure never passes as an image without sources, nor the reverse *)
FailureComesOut == (Over /\ result = "sep") =>
  \/ o.default = Raises /\ o.high = Raises
  \/ o.low = Raises /\ o.lowbig = Raises
NeverFewerThanFound == (Over /\ result \in {"first", "second"}) => N(srcs) >= old
Ends == <>Over
===============================================================================
