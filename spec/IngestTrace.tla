---------------------------- MODULE IngestTrace -----------------------------
(* Verdict on constructed images: each record describes the source, how the
   mask was supplied, the constructor options and the image that came out. *)
EXTENDS TraceLib, Ingest

VARIABLES rec, done
JInit == rec \in DOMAIN Trace /\ done = FALSE

(* -------- expectations computed from the record's inputs -------- *)
SrcNonZero(r) == {PixelOf(i, r.w) : i \in {j \in DOMAIN r.val : r.kind[j] # 0 \/ r.val[j] # 0}}
RWin(r) == Window(r.h, r.w, IF r.borders THEN SrcNonZero(r) ELSE {}, r.borders, r.crop)
Gain2(r) == IF Has(r, "gain2") THEN r.gain2 ELSE IF Has(r, "hgain2") /\ r.src \in {"path", "hdu", "hdulist"} THEN r.hgain2 ELSE 2
Thresh(r) == IF Has(r, "thresh") THEN r.thresh ELSE DefaultThreshold

BadSrc(r) == {PixelOf(i, r.w) : i \in {j \in DOMAIN r.val : Unusable(r.kind[j], r.val[j] * Gain2(r))}}
OwnSrc(r) == IF r.src = "masked" THEN PixelsOf(NonZeroMarks(r.own), r.w) ELSE {}

(* marked pixels, in window coordinates *)
MarkedWin(r, win) ==
  LET marks == IF r.given = "array" THEN NonZeroMarks(r.mvals)
               ELSE IF r.given = "file" \/ UsesExtension(r.src, r.given, r.ext, r.guess)
                    THEN ThresholdMarks(IF r.given = "file" THEN r.mvals ELSE r.evals, Thresh(r))
               ELSE {}
  IN IF r.mwindow \* the mask was given for the window, not for the source
     THEN PixelsOf(marks, WinW(win))
     ELSE InView(PixelsOf(marks, r.w), win)
MustWin(r, win) == MarkedWin(r, win) \cup InView(BadSrc(r), win)
                     \cup (IF UsesOwnMask(r.src, r.given) THEN InView(OwnSrc(r), win) ELSE {})
(* a masked array with a mask supplied besides its own: its own marks may count *)
MayWin(r, win) == MustWin(r, win) \cup InView(OwnSrc(r), win)

ObsMask(r) == PixelsOf({i \in DOMAIN r.omask : r.omask[i] # 0}, r.ow)

MaskClauses(r) ==
  LET win == TLCEval(RWin(r))
      must == TLCEval(MustWin(r, win))
      may == TLCEval(MayWin(r, win))
      lo == Grow(must, WinH(win), WinW(win))
      hi == IF may = must THEN lo ELSE Grow(may, WinH(win), WinW(win))
      obs == TLCEval(ObsMask(r))
  IN IF r.raised # "" THEN {"refused-" \o r.raised}
     ELSE IF r.oh # WinH(win) \/ r.ow # WinW(win) THEN {"mask-shape"}
     ELSE Clause("mask-is-boolean-array", r.mask_bool)
          \cup Clause("bad-pixel-left-unmasked", must \subseteq obs)
          \cup Clause("enlarged-mask-incomplete", lo \subseteq obs)
          \cup Clause("good-pixel-masked", obs \subseteq hi)

DataClauses(r) ==
  LET win == TLCEval(RWin(r))
      hh == WinH(win)
      ww == WinW(win)
      g == Gain2(r)
      si(i) == (win[1] + ((i-1) \div ww)) * r.w + win[3] + ((i-1) % ww) + 1
  IN IF r.raised # "" THEN {"refused-" \o r.raised}
     ELSE IF r.oh # hh \/ r.ow # ww \/ Len(r.oval) # hh * ww THEN {"window-kept"}
     ELSE Clause("pixel-values", \A i \in 1..(hh*ww) :
                    /\ r.okind[i] = r.kind[si(i)]
                    /\ (r.okind[i] = 0 => r.oval[i] = r.val[si(i)] * g))
          \cup Clause("exact-values", r.exact)
          \cup Clause("gain-reported", r.ogain2 = g)
          \cup Clause("header-of-source", r.header_ok)
          \cup Clause("origin-of-source", r.origin_ok)
          \cup Clause("caller-array-unmodified", r.caller_ok)
          \cup Clause("caller-mask-unmodified", r.callermask_ok)
          \cup Clause("source-file-unmodified", r.file_ok)

Fails(r) == IF r.what = "mask" THEN MaskClauses(r) ELSE DataClauses(r)
JNext == ~done /\ done' = TRUE /\ UNCHANGED rec
         /\ LET r == Trace[rec] IN Report(r.id, Fails(r))
=============================================================================
