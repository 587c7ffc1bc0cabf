------------------------------ MODULE CoaddTrace ------------------------------
EXTENDS TraceLib
C == INSTANCE Coadd WITH MaxImages <- 0, MaxWorkers <- 0, Split <- "", Shared <- FALSE, n <- 0, k <- 0, chunks <- <<>>,
       at <- 0, hold <- 0, acc <- 0, total <- 0, merged <- 0, pc <- "", order <- 0
VARIABLES rec, done

Once == 1000   \* multiplicities are observed in thousandths
Near(x) == Abs(x - Once) <= 2
Fails(r) ==
  CASE r.kind = "chunks" -> Clause("chunks-divide-the-sequence", C!IsSplit(r.chunks, r.n, r.k))
                            \cup Clause("sequence-left-alone", r.untouched)
    [] r.kind = "coadd" ->
         Clause("image-counted-once", Len(r.images) = r.n /\ \A i \in DOMAIN r.images : Near(r.images[i]))
         \cup Clause("psf-counted-once", Len(r.psfs) = r.n /\ \A i \in DOMAIN r.psfs : Near(r.psfs[i]))
         \cup Clause("mask-is-union", r.stray = 0 /\ Len(r.mask) > 0 /\ \A i \in DOMAIN r.mask : r.mask[i].seen = (Len(r.mask[i].who) > 0))
         \cup Clause("mask-shape", r.maskshape)
         \cup Clause("information-loss-handed-on", \A i \in DOMAIN r.loss : r.loss[i] = r.asked)
         \cup Clause("list-left-alone", r.untouched)
         \cup Clause("whole-frame", r.rest <= 2000)
         \cup Clause("raised", r.raised = "")
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
