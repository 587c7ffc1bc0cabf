------------------------------ MODULE CleanTrace ------------------------------
(* whole: pixel values are whole numbers, which may coincide with means.    *)
(* cls: rows of 0 good, 1 masked, 2 not finite, 3 cosmic ray.  val: values  *)
(* of the background-subtracted image, obs: of the cleaned one, in          *)
(* thousandths.  kept: rows of 1 where both are the same number.            *)
EXTENDS TraceLib
VARIABLES rec, done
Reach == 5
Tol(r) == 2 + r.span \div 500000
Rows(r) == 1..r.h
Cols(r) == 1..r.w
Bad(r) == {p \in Rows(r) \X Cols(r) : r.cls[p[1]][p[2]] # 0}
Looked(r) == {p \in Bad(r) : (p[1] * 7 + p[2] * 3) % r.step = 0}
Around(r, p) == {q \in (Max2(1, p[1] - Reach)..Min2(r.h, p[1] + Reach)) \X (Max2(1, p[2] - Reach)..Min2(r.w, p[2] + Reach)) : r.cls[q[1]][q[2]] = 0}
Hull(r, p) == FoldSet(LAMBDA q, s : <<Min2(s[1], r.val[q[1]][q[2]]), Max2(s[2], r.val[q[1]][q[2]])>>, <<0, 0>>, Around(r, p))
Fails(r) ==
  Clause("shape", r.shape) \cup
  (IF ~r.shape THEN {} ELSE
   Clause("not-finite", r.finite)
   \cup Clause("good-pixel-changed", \A y \in Rows(r) : \A x \in Cols(r) : r.cls[y][x] = 0 => r.kept[y][x] = 1)
   \cup Clause("bad-pixel-kept", r.whole \/ \A p \in Bad(r) : r.kept[p[1]][p[2]] = 0 \/ r.obs[p[1]][p[2]] = 0)
   \cup Clause("outside-range-around", \A p \in Looked(r) : \A g \in {Hull(r, p)} : r.obs[p[1]][p[2]] >= g[1] - Tol(r) /\ r.obs[p[1]][p[2]] <= g[2] + Tol(r)))
  \cup Clause("depends-on-bad-values", r.twin <= 1000)
  \cup Clause("transform", r.hat <= 1000)
  \cup Clause("input-altered", r.untouched)
  \cup Clause("detector-input", r.seen)
  \cup Clause("cosmic-ray-missed", r.spikes)
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
