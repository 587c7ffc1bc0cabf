----------------------------- MODULE SubCallTrace -----------------------------
EXTENDS TraceLib
VARIABLES rec, done
Tol == 20000       \* 1e-9 of the largest value
TolZero == 20000
Intact(r) == Clause("pixels-altered", r.pixels) \cup Clause("masks-altered", r.masks) \cup Clause("stamps-altered", r.stamps) \cup Clause("sources-altered", r.sources)
Masked(r) == Clause("mask-shape-or-type", r.masktype) \cup Clause("mask-is-union", r.mask)
Fails(r) ==
  CASE r.rel = "sizes" -> Clause("different-sizes-accepted", r.raised = "ValueError") \cup Intact(r)
    [] r.rel = "swap" -> Clause("raised", r.raised = "") \cup Clause("swap-negates-difference", r.d <= Tol) \cup Clause("swap-keeps-psf", r.p <= Tol)
                         \cup Clause("swap-keeps-mask", r.samemask) \cup Masked(r) \cup Intact(r)
    [] r.rel \in {"self", "twin"} -> Clause("raised", r.raised = "") \cup Clause("self-is-not-zero", r.zero <= TolZero) \cup Masked(r) \cup Intact(r)
    [] r.rel \in {"form", "again", "history"} ->
         Clause("raised", r.raised = "") \cup Clause("old-name-warns", r.warned) \cup Clause("difference-changed", r.d <= Tol) \cup Clause("psf-changed", r.p <= Tol) \cup Clause("score-changed", r.s <= 10 * Tol)
         \cup Clause("mask-changed", r.samemask) \cup Masked(r) \cup Intact(r)
    [] r.rel = "align" ->
         Clause("raised", r.raised = "") \cup Clause("mask-shape-or-type", r.masktype) \cup Clause("reference-mask-lost", r.refmask)
         \cup Clause("bad-pixels-of-new-image-lost", r.newmask) \cup Clause("unmapped-pixels-unmasked", r.outside) \cup Clause("good-pixels-masked", r.good)
         \cup Clause("images-on-another-grid", r.grid) \cup Clause("self-is-not-zero", r.zero <= TolZero) \cup Intact(r)
    [] OTHER -> {"unknown-relation"}
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
