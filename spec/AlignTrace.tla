------------------------------ MODULE AlignTrace ------------------------------
(* One call with alignment.  A probe is a pixel of the first image's grid:  *)
(* its true place in the source (thousandths of a pixel) and whether the    *)
(* aligned image masks it.  The place is known to Slack; between what must  *)
(* be masked and what may be, either is right.                              *)
EXTENDS TraceLib
VARIABLES rec, done
Slack == 150
Far == 10800   \* a mask given to an image is enlarged by up to seven pixels
(* the place is a pixel or more beyond the outermost pixels, or between pixels one of which is bad *)
Beyond(m, y, x, by) == y < -by \/ x < -by \/ y > 1000 * (m.h - 1) + by \/ x > 1000 * (m.w - 1) + by
Near(m, y, x, d) == \E i \in DOMAIN m.bad : Abs(y - 1000 * m.bad[i][1]) < d /\ Abs(x - 1000 * m.bad[i][2]) < d
Must(m, p) == Beyond(m, p[1], p[2], 1000 + Slack) \/ Near(m, p[1], p[2], 1000 - Slack)
May(m, p) == Beyond(m, p[1], p[2], -Far) \/ Near(m, p[1], p[2], Far)
ImgFails(m) ==
  Clause("aligned-shape", m.shape) \cup
  (IF ~m.shape THEN {} ELSE
   Clause("bad-or-missing-pixel-unmasked", \A i \in DOMAIN m.probes : Must(m, m.probes[i]) => m.probes[i][3] = 1)
   \cup Clause("good-pixel-masked", \A i \in DOMAIN m.probes : ~May(m, m.probes[i]) => m.probes[i][3] = 0)
   \cup Clause("stars-coincide", m.stars <= 250) \cup Clause("pixels", m.pixels <= 60) \cup Clause("unmasked-not-finite", m.finite))
Fails(r) ==
  Clause("failed", r.error = "none") \cup
  (IF r.error # "none" THEN {} ELSE
   Clause("result-shape", r.shape)
   \cup (IF ~r.shape THEN {} ELSE
         Clause("first-image-mask", r.firstmask)
         \cup UNION {IF r.imgs[i].shape THEN
                Clause("result-mask-lacks-bad-pixel", \A j \in DOMAIN r.imgs[i].probes : Must(r.imgs[i], r.imgs[i].probes[j]) => r.imgs[i].probes[j][4] = 1) ELSE {} : i \in DOMAIN r.imgs}
         \cup Clause("result-mask-too-big", \A j \in DOMAIN r.clean : r.clean[j] = 0))
   \cup UNION {ImgFails(r.imgs[i]) : i \in {j \in DOMAIN r.imgs : r.imgs[j].seen}}
   \cup Clause("aligned-image-not-the-one-combined", r.same <= 5000)
   \cup Clause("sky-of-result", r.sky <= r.skytol)
   \cup Clause("caller-pixels-altered", r.pixels) \cup Clause("caller-masks-altered", r.masks) \cup Clause("caller-list-altered", r.list)
   \cup Clause("caller-catalogues-altered", r.cats))
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
