------------------------------- MODULE SkyTrace -------------------------------
(* Twins: residuals (1e-9) between what the two images and their            *)
(* combinations gave, by name.  Laws: residuals in thousandths of the noise *)
(* (or of its value).                                                       *)
EXTENDS TraceLib
VARIABLES rec, done
Read(o) == Clause("background-shape", o.shape) \cup Clause("subtracted-image-is-not-image-less-background", o.sub <= 2000)
           \cup Clause("subtracted-image-mask", o.mask) \cup Clause("reading-changes-image", o.same)
Twin(r) == UNION {Clause("bad-pixel-values-reach-" \o r.made[i][1], r.made[i][2] <= 1000) : i \in DOMAIN r.made}
Law(r) ==
  Clause("sky-level", r.sky <= r.skytol) \cup Clause("noise", r.noise <= r.noisetol)
  \cup Clause("sources", r.sources) \cup Clause("subtracted-image", r.subtracted <= r.subtol)
Fails(r) == UNION {Read(r.reads[i]) : i \in DOMAIN r.reads} \cup (IF r.kind = "twin" THEN Twin(r) ELSE Law(r))
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
