------------------------------ MODULE IngestMC ------------------------------
(***************************************************************************)
(* The ingestion pipeline as the steps the constructor takes, one action   *)
(* per stage, on every small image; the finished image must be what the    *)
(* declarative rules of Ingest promise, whatever the form of the source    *)
(* and of the mask.                                                        *)
(***************************************************************************)
EXTENDS Ingest

CONSTANTS H, W, Classes, MaskLevels, Sources, Givens, Faithful

VARIABLES cfg, pc, win, mask, n
vars == <<cfg, pc, win, mask, n>>

(* pixel classes: ok, zero, bad values and values exactly at the limits *)
Val8(c) == CASE c = "ok" -> 800 [] c = "zero" -> 0 [] c = "low" -> LowLimit - 1
             [] c = "lowedge" -> LowLimit [] c = "high" -> HighLimit + 1
             [] c = "highedge" -> HighLimit [] OTHER -> 0
KindOf(c) == IF c = "nan" THEN 1 ELSE IF c = "inf" THEN 2 ELSE 0
Full == Grid(H, W)
Crops == {<<0,0,0,0>>, <<1,0,0,0>>, <<0,0,0,1>>}

Cfgs == [src : Sources, given : Givens, ext : BOOLEAN, guess : BOOLEAN,
         borders : BOOLEAN, crop : Crops,
         pix : [Full -> Classes], lev : [Full -> MaskLevels]]

LevSeq(c) == [i \in 1..(H*W) |-> c.lev[PixelOf(i, W)]]
NonZero(c) == {p \in Full : c.pix[p] # "zero"}
WindowOf(c) == Window(H, W, NonZero(c), c.borders, c.crop)

Init == /\ cfg \in Cfgs
        /\ (cfg.ext => cfg.src \in {"path", "hdulist"})
        /\ pc = "load" /\ win = <<0, H, 0, W>> /\ mask = {} /\ n = 0
        /\ WinH(WindowOf(cfg)) > 0 /\ WinW(WindowOf(cfg)) > 0

Borders == /\ pc = "load" /\ pc' = "crop"
           /\ win' = IF cfg.borders /\ NonZero(cfg) # {} THEN Box(NonZero(cfg)) ELSE win
           /\ UNCHANGED <<cfg, mask, n>>
Crop == /\ pc = "crop" /\ pc' = "mask"
        /\ win' = << win[1] + cfg.crop[1], win[2] - cfg.crop[2],
                     win[3] + cfg.crop[3], win[4] - cfg.crop[4] >>
        /\ UNCHANGED <<cfg, mask, n>>
SetMask ==
  /\ pc = "mask" /\ pc' = "invalid"
  /\ mask' =
       CASE cfg.given = "file"  -> InView(PixelsOf(ThresholdMarks(LevSeq(cfg), DefaultThreshold), W), win)
         [] cfg.given = "array" -> InView(PixelsOf(NonZeroMarks(LevSeq(cfg)), W), win)
         [] cfg.given = "none" /\ cfg.guess /\ cfg.ext
                                -> InView(PixelsOf(ThresholdMarks(LevSeq(cfg), DefaultThreshold), W), win)
         [] OTHER               -> {}
  /\ UNCHANGED <<cfg, win, n>>
Invalid ==
  /\ pc = "invalid" /\ pc' = "grow"
  \* Faithful = FALSE: the defect repaired in the code, where invalid pixels
  \* were only marked when no mask was supplied
  /\ mask' = IF Faithful \/ cfg.given = "none"
             THEN mask \cup InView({p \in Full : Unusable(KindOf(cfg.pix[p]), Val8(cfg.pix[p]))}, win)
             ELSE mask \cup InView({p \in Full : KindOf(cfg.pix[p]) = 0 /\ Unusable(0, Val8(cfg.pix[p]))}, win)
  /\ UNCHANGED <<cfg, win, n>>
GrowStep == /\ pc = "grow" /\ n < GrowPasses
            /\ n' = n + 1
            /\ mask' = GrowOnce(mask, WinH(win), WinW(win))
            /\ UNCHANGED <<cfg, pc, win>>
Finish == pc = "grow" /\ n = GrowPasses /\ pc' = "done" /\ UNCHANGED <<cfg, win, mask, n>>
Next == Borders \/ Crop \/ SetMask \/ Invalid \/ GrowStep \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ properties ---------------------------- *)
Marked == IF cfg.given = "array" THEN PixelsOf(NonZeroMarks(LevSeq(cfg)), W)
          ELSE IF cfg.given = "file" \/ UsesExtension(cfg.src, cfg.given, cfg.ext, cfg.guess)
               THEN PixelsOf(ThresholdMarks(LevSeq(cfg), DefaultThreshold), W)
          ELSE {}
Bad == {p \in Full : Unusable(KindOf(cfg.pix[p]), Val8(cfg.pix[p]))}
Promised == LET w == WindowOf(cfg) IN Grow(InView(Marked \cup Bad, w), WinH(w), WinW(w))

MaskAsPromised == pc = "done" => win = WindowOf(cfg) /\ mask = Promised
NoBadPixelFree == pc = "done" => InView(Bad \cup Marked, WindowOf(cfg)) \subseteq mask
CleanStaysClean == pc = "done" /\ Marked = {} /\ Bad = {} => mask = {}
GrowthMonotone == [][pc = "grow" => mask \subseteq mask']_vars
Terminates == <>(pc = "done")
=============================================================================
