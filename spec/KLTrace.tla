------------------------------- MODULE KLTrace -------------------------------
(* Judges observed PSF bases.  Powers, losses and residuals in 1e-9. *)
EXTENDS TraceLib
M == INSTANCE KL WITH N <- 0, Total <- 0, Clamped <- TRUE, p <- <<>>, loss <- 0, i <- 0, pw <- 0, cut <- 0, pc <- ""
VARIABLES rec, done

Tol == 2000         \* 2e-6 of the total power
Fit == 20000        \* 2e-5: least-squares fits of cubic fields
Same == 2000

CutFails(r, c) ==
  Clause("shortest-within-loss", M!AcceptableCount(r.power, c.n, c.loss, IF r.exact THEN 0 ELSE Tol))
  \cup Clause("count-of-fields", c.nfields = (IF c.n = 1 THEN 0 ELSE c.n))
  \cup Clause("basis-and-variable-psf-agree", c.nvar = c.n)
  \cup Clause("loss-remembered", c.kept = c.loss)
(* less loss, not fewer components *)
MonoFails(r) ==
  Clause("monotone", \A a \in DOMAIN r.cuts, b \in DOMAIN r.cuts :
                       r.cuts[a].loss < r.cuts[b].loss => r.cuts[a].n >= r.cuts[b].n)
CompFails(c) ==
  UNION {Clause("component-" \o ToString(k), c.comp[k] <= Same) : k \in DOMAIN c.comp}
  \cup UNION {Clause("field-" \o ToString(k), c.fld[k] <= Fit) : k \in DOMAIN c.fld}
  \cup UNION {Clause("cubic-" \o ToString(k), c.cubic[k] = 10) : k \in DOMAIN c.cubic}
  \cup Clause("stars-are-positive", c.upright)
  \cup (IF c.n = 1 THEN Clause("single-component-unit-sum", c.sum1 <= Same) ELSE {})
  \cup UNION {Clause("psf-at-position-unit-sum", c.at[k].sum <= Same) : k \in DOMAIN c.at}
  \cup UNION {Clause("psf-at-position-shape", c.at[k].shape) : k \in DOMAIN c.at}
  \cup UNION {Clause("psf-at-position-combination", c.at[k].res <= Fit) : k \in DOMAIN c.at}
  \cup (IF Has(c, "norm") THEN Clause("normalisation-image", c.norm <= Fit) ELSE {})

Fails(r) ==
  UNION {CutFails(r, r.cuts[k]) \cup CompFails(r.cuts[k]) : k \in DOMAIN r.cuts}
  \cup MonoFails(r)

JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
