------------------------------ MODULE StoreTrace ------------------------------
(* Histories of stores on the real code.  Pixels are the bits of the single *)
(* precision value, or (in big arrays) their digest.                        *)
EXTENDS TraceLib
M == INSTANCE Store WITH Paths <- {}, Most <- 0, Design <- "sound", disk <- <<>>, mem <- <<>>, hist <- <<>>, caller <- <<>>
VARIABLES rec, done
(* array i of a history: kind, pix (expected bits), bad (flat indexes); view: a destination after step i *)
ViewFails(r, i, d) ==
  LET h == [j \in 1..i |-> <<r.arrays[j].kind, FALSE, r.arrays[j].dest>>]
      l == M!LastTo(h, d)
      v == r.views[i][d]
  IN (IF l = 0 THEN Clause("file-from-nowhere", ~v.there)
      ELSE IF ~v.there THEN {"nothing-stored"}
      ELSE LET a == r.arrays[l] IN
        Clause("pixels", v.pix = a.pix) \cup Clause("shape", v.shape = a.shape)
        \cup Clause("extension-exactly-when-masked", v.units = (IF M!Masked(a.kind) THEN 2 ELSE 1))
        \cup (IF v.units = 2 /\ M!Masked(a.kind) THEN Clause("mask", Range1(v.bad) = Range1(a.bad) /\ v.maskshape = a.shape) ELSE {}))
StoreFails(r) ==
  Clause("store-failed", r.error = "none") \cup
  (IF r.error # "none" THEN {}
   ELSE UNION {ViewFails(r, i, d) : i \in DOMAIN r.views, d \in {"one", "two", "memory"}}
        \cup Clause("caller-array-altered", r.untouched) \cup Clause("other-files", r.strays = 0))
LoadFails(r) ==
  Clause("load-failed", r.error = "none") \cup
  (IF r.error # "none" THEN {}
   ELSE Clause("bad-pixels-restored", Range1(r.bad) \subseteq Range1(r.loaded))
        \cup Clause("pixels", r.pixels <= 130) \cup Clause("shape", r.shape))
(* exposures: directories and numbers *)
LastExp(r, i, k) == LET S == {j \in 1..i : r.exps[j].file = k} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A m \in S : m <= j
ExpFails(r) ==
  Clause("store-failed", r.error = "none") \cup
  (IF r.error # "none" THEN {}
   ELSE UNION {LET v == r.final[k]
                   e == r.exps[LastExp(r, Len(r.exps), k)] IN
        Clause("pixels", v.pix = e.pix) \cup Clause("julian-date", v.jd <= 2) \cup Clause("date-and-time", v.time <= 2)
        \cup Clause("exposure", v.texp <= 1) \cup Clause("zero-point", v.zero <= 1) : k \in DOMAIN r.final}
   \cup Clause("returned-path", \A i \in DOMAIN r.exps : r.exps[i].returned) \cup Clause("files", r.count = Cardinality({r.exps[i].file : i \in DOMAIN r.exps}))
   \cup Clause("caller-array-altered", r.untouched))
Fails(r) == CASE r.kind = "store" -> StoreFails(r) [] r.kind = "load" -> LoadFails(r) [] r.kind = "exposure" -> ExpFails(r)
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
