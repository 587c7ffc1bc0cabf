------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Verdict machinery shared by all trace specifications.                   *)
(*                                                                         *)
(* The harness runs the implementation and writes one JSON object per      *)
(* observed call (ndjson).  Every record is judged by the operator         *)
(* Fails(r) of the including module: the set of names of the clauses of    *)
(* the specification the record breaks.  The verdict is total: every       *)
(* record is judged, whatever the others say.  Each record is a behaviour  *)
(* of two states, so that TLC's workers judge in parallel; the harness     *)
(* compares the number of distinct states with 2 * number of records.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Has(r, f) == f \in DOMAIN r
Range1(s) == {s[i] : i \in DOMAIN s}

(* A clause: its name is part of the verdict exactly when it does not hold. *)
Clause(name, holds) == IF holds THEN {} ELSE {name}

Report(id, f) ==
  IF f = {} THEN TRUE
  ELSE PrintT("@@FAIL " \o ToJson([id |-> id, fails |-> SetToSeq(f)]))
=============================================================================
