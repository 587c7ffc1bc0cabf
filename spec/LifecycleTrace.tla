---------------------------- MODULE LifecycleTrace ----------------------------
(***************************************************************************)
(* Trace validation: each record is the history of one image with, for     *)
(* every read, the identity of the value observed.  tab holds the          *)
(* identities of the values that fresh images report in each parameter     *)
(* setting; the specification says which of them the read must return.     *)
(***************************************************************************)
EXTENDS TraceLib, Lifecycle
VARIABLES rec, l
tvars == <<loss, zp, asked, shape, cut, kept, out, rec, l>>

Ev == Trace[rec].events
Tab == Trace[rec].tab     \* records [q, shape, loss, zp, v]
TDeps(q) == IF q \in {"vbasis", "vfields"} THEN {"shape", "loss"} ELSE Deps(q)
Fresh(q, sh, lo, z) ==
  {t.v : t \in {Tab[i] : i \in {j \in DOMAIN Tab :
        /\ Tab[j].q = q
        /\ "shape" \in TDeps(q) => Tab[j].shape = sh
        /\ "loss" \in TDeps(q) => Tab[j].loss = lo
        /\ "zp" \in TDeps(q) => Tab[j].zp = z}}}

JInit == /\ rec \in DOMAIN Trace /\ l = 1
         /\ LInit /\ loss = 1 /\ zp = 1

FreshShape == {Tab[i].v : i \in {j \in DOMAIN Tab : Tab[j].q = "sshape" /\ Tab[j].shape = IF cut' THEN shape' ELSE -1}}

(* the event is explained by the action of the specification *)
Act(e) ==
  CASE e.op = "read" -> Read(e.x)
    [] e.op = "varpsf" -> VariablePsf(e.lo, e.y)
    [] e.op = "loss" -> SetLoss(e.y)
    [] e.op = "zp" -> SetZp(e.y)
    [] e.op = "refresh" -> Refresh

Broken(e) ==
  IF e.raised # "" THEN {"raised-" \o e.raised \o "-on-" \o e.op \o "-" \o e.x}
  ELSE (IF e.op = "read" THEN Clause("stale-" \o e.x, e.v \in Fresh(e.x, shape', loss', zp')) ELSE {})
       \cup (IF e.op = "varpsf"
             THEN Clause("stale-variable-basis", e.v \in Fresh("vbasis", shape', loss', zp'))
                  \cup Clause("stale-variable-fields", e.v2 \in Fresh("vfields", shape', loss', zp'))
             ELSE {})
       \cup Clause("stamp-shape-after-" \o e.op, e.sshape \in FreshShape)
       \cup Clause("parameter-loss-after-" \o e.op, e.ploss = loss')
       \cup Clause("parameter-zp-after-" \o e.op, e.pzp = zp')

JNext == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED rec
         /\ Act(Ev[l])
         /\ Report(Trace[rec].id, Broken(Ev[l]))
===============================================================================
