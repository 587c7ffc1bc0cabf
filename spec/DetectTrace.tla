----------------------------- MODULE DetectTrace -----------------------------
EXTENDS TraceLib
D == INSTANCE Detect WITH Found <- {}, Minimum <- {}, KeepLonger <- TRUE, o <- 0, min <- 0, pc <- "", calls <- <<>>,
       srcs <- "", old <- 0, result <- ""
S == INSTANCE StampSize WITH Sizes <- {}, Most <- 1, MakeOdd <- TRUE, FromStars <- TRUE, s <- <<>>, k <- 0, pc <- ""
VARIABLES rec, done

(* rows of the catalogue in use: npix, flux, flag; ascending copies *)
Sure(c, i) ==
  /\ c.flag[i] = 0
  /\ D!AtLeast(c.npix[i], c.snpix, 20) /\ ~D!Unsure(c.npix[i], c.snpix, 20)
  /\ D!AtMost(c.npix[i], c.snpix, 80) /\ ~D!Unsure(c.npix[i], c.snpix, 80)
  /\ D!AtLeast(c.flux[i], c.sflux, 15) /\ ~D!Unsure(c.flux[i], c.sflux, 15)
  /\ D!AtMost(c.flux[i], c.sflux, 85) /\ ~D!Unsure(c.flux[i], c.sflux, 85)
May(c, i) ==
  /\ c.flag[i] = 0
  /\ D!AtLeast(c.npix[i], c.snpix, 20) /\ D!AtMost(c.npix[i], c.snpix, 80)
  /\ D!AtLeast(c.flux[i], c.sflux, 15) /\ D!AtMost(c.flux[i], c.sflux, 85)
Sorted(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]

FilterFails(c, kept) ==
  LET rows == DOMAIN c.npix
      must == {i \in rows : Sure(c, i)}
      may  == {i \in rows : May(c, i)}
      k    == Range1(kept)
      filtered == IF Cardinality(must) > D!Most
                  THEN k \subseteq may /\ Cardinality(k) = D!Most
                  ELSE IF Cardinality(may) > D!Most
                  THEN k \subseteq may /\ (Cardinality(k) = D!Most \/ must \subseteq k)
                  ELSE must \subseteq k /\ k \subseteq may
      all == IF Len(c.npix) > D!Most THEN k \subseteq rows /\ Cardinality(k) = D!Most ELSE k = rows
  IN Clause("source-kept-twice", Cardinality(k) = Len(kept))
     \cup Clause("source-not-in-catalogue", k \subseteq rows)
     \cup Clause("more-than-allowed", Len(kept) <= D!Most)
     \cup Clause("sorted-columns", Sorted(c.snpix) /\ Sorted(c.sflux) /\ Len(c.snpix) = Len(c.npix))
     \cup Clause("sources-filtered",
            IF Cardinality(may) < D!Few THEN all
            ELSE IF Cardinality(must) >= D!Few THEN filtered
            ELSE all \/ filtered)

Fails(r) ==
  LET want == D!ResultOf(r.o, r.min)
  IN Clause("attempts", r.calls = D!CallsOf(r.o, r.min))
     \cup Clause("image-given-to-detector", r.inputs)
     \cup Clause("result", IF want = "either" THEN r.result \in {"first", "second"} ELSE r.result = want)
     \cup (IF want = "sep" THEN Clause("which-failure", r.failure = (IF D!First(r.o) = D!Raises THEN "high" ELSE "lowbig")) ELSE {})
     \cup (IF r.result \in {"first", "second"} THEN FilterFails(r.cat, r.kept) ELSE {})
     \cup Clause("same-on-second-access", r.again)
     \cup (IF Has(r, "usual")
           THEN Clause("usual-stamp-size", /\ Len(r.usual.shape) = 2 /\ r.usual.shape[1] = r.usual.shape[2]
                                           /\ Sorted(r.usual.npix) /\ S!SizeOK(r.usual.shape[1], S!Pct20(r.usual.npix)))
           ELSE {})

JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
