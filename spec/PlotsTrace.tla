------------------------------ MODULE PlotsTrace ------------------------------
EXTENDS TraceLib
M == INSTANCE Plots WITH Most <- 0, Design <- "sound", op <- "", n <- 0, given <- 0, pc <- "", k <- 0, drawn <- <<>>, titles <- <<>>, result <- ""
VARIABLES rec, done
Promised(r) == IF r.op = "autopsf_coef" /\ r.n = 1 THEN "NoDataToPlot" ELSE IF r.given # -1 /\ r.given < r.n THEN "ValueError" ELSE ""
(* a.draws: which items are shown on the axes; 0: none of them *)
AxesFails(r, i) ==
  LET a == r.axes[i] IN
  IF i > r.n THEN Clause("drawn-on-spare-axes", a.draws = <<>> /\ a.contours = 0)
  ELSE Clause("component-on-its-axes", a.draws = <<i>>)
       \cup Clause("title-index", a.index = i) \cup Clause("title-sum", a.sum)
       \cup Clause("contours-as-asked", (a.contours > 0) = r.iso)
       \cup Clause("contour-style", ~r.iso \/ a.style) \cup Clause("image-style", a.image)
DrawFails(r) ==
  Clause("refusal", r.raised = Promised(r))
  \cup (IF r.raised # "" THEN Clause("drawn-though-refused", r.nothing)
        ELSE Clause("axes-for-every-component", Len(r.axes) >= r.n)
             \cup (IF Len(r.axes) < r.n THEN {} ELSE UNION {AxesFails(r, i) : i \in DOMAIN r.axes})
             \cup Clause("own-axes-used", r.given = -1 \/ r.same) \cup Clause("loss-passed-on", r.loss))
NameFails(r) == Clause("plot-name", r.raised = r.promised) \cup Clause("drawn-though-refused", r.raised = "" \/ r.nothing) \cup Clause("plot-called", r.raised # "" \/ r.right)
GridFails(r) == UNION {Clause("axes-for-every-component", r.grids[j].rows * r.grids[j].cols >= r.grids[j].n) : j \in DOMAIN r.grids}
(* calls of plot_S and plot_R, in order: what the axes returned show last *)
CallFails(r, j) ==
  LET o == r.calls[j] IN
  Clause("picture-drawn", o.raised = "")
  \cup (IF o.raised # "" THEN {} ELSE
    Clause("axes-of-the-picture", o.axes) \cup Clause("picture-of-its-image", ~o.axes \/ o.shown)
    \cup Clause("picture-limits", ~o.axes \/ ~o.shown \/ o.limits)
    \cup Clause("figure-left-open", o.nbook \/ o.open = 0) \cup Clause("figure-kept-for-notebook", ~o.nbook \/ o.kept)
    \cup Clause("picture-stored", o.stored = o.path)
    \cup Clause("image-untouched", o.same))
PictureFails(r) == UNION {CallFails(r, j) : j \in DOMAIN r.calls}
Fails(r) == CASE r.kind = "picture" -> PictureFails(r) [] r.kind = "draw" -> DrawFails(r) [] r.kind = "name" -> NameFails(r) [] r.kind = "grid" -> GridFails(r)
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
