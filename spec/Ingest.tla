------------------------------- MODULE Ingest -------------------------------
(***************************************************************************)
(* How a source image and a mask become the pixels and the bad-pixel mask  *)
(* of a SingleImage (C01, C02).                                            *)
(*                                                                         *)
(* Pixels are <<row, col>> of the source grid; an image keeps a window of  *)
(* it.  Pixel values are integers (1/4 of a count before the gain, 1/8     *)
(* after it, the gain being an integer number of halves) plus a kind: 0    *)
(* finite, 1 not-a-number, 2 +infinity, 3 -infinity.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

LowLimit  == -50 * 8
HighLimit == 65000 * 8
DefaultThreshold == 16
GrowPasses == 7
GrowCount  == 3

(* ------------------------------ geometry ------------------------------ *)
Grid(h, w) == (0 .. h-1) \X (0 .. w-1)

Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i

(* 3x3 neighbourhood with mirrored edges: the line beyond the edge repeats
   the edge line. *)
Neighbours(p, h, w) ==
  [k \in 1..9 |-> << Clamp(p[1] + ((k-1) \div 3) - 1, h),
                     Clamp(p[2] + ((k-1) % 3) - 1, w) >>]
CountIn(p, S, h, w) ==
  LET n == Neighbours(p, h, w)
  IN FoldSeq(LAMBDA q, acc : acc + (IF q \in S THEN 1 ELSE 0), 0, n)
(* one pass of the enlargement *)
GrowOnce(S, h, w) ==
  IF S = {} THEN S
  ELSE S \cup {p \in Grid(h, w) \ S : CountIn(p, S, h, w) >= GrowCount}
RECURSIVE GrowN(_, _, _, _)
GrowN(S, h, w, n) ==
  IF n = 0 THEN S
  ELSE LET T == TLCEval(GrowOnce(S, h, w))
       IN IF T = S THEN S ELSE GrowN(T, h, w, n - 1)
Grow(S, h, w) == TLCEval(GrowN(TLCEval(S), h, w, GrowPasses))

(* bounding box of a set of pixels: <<top, bottom+1, left, right+1>> *)
Box(S) == << Min({p[1] : p \in S}), Max({p[1] : p \in S}) + 1,
             Min({p[2] : p \in S}), Max({p[2] : p \in S}) + 1 >>

(* the window kept: border removal, then crop *)
Window(h, w, nonzero, borders, crop) ==
  LET b == IF borders /\ nonzero # {} THEN Box(nonzero) ELSE <<0, h, 0, w>>
  IN << b[1] + crop[1], b[2] - crop[2], b[3] + crop[3], b[4] - crop[4] >>
WinH(win) == win[2] - win[1]
WinW(win) == win[4] - win[3]
InWindow(p, win) == p[1] >= win[1] /\ p[1] < win[2] /\ p[2] >= win[3] /\ p[2] < win[4]
(* restriction of a set of source pixels to window coordinates *)
InView(S, win) == {<<p[1] - win[1], p[2] - win[3]>> : p \in {q \in S : InWindow(q, win)}}

(* ------------------------------ mask rules ---------------------------- *)
(* vals: sequence of integers.  Its median is zero iff the middle one is, or
   the two middle ones cancel. *)
CountLess(vals, x) == Len(SelectSeq(vals, LAMBDA v : v < x))
CountLeq(vals, x)  == Len(SelectSeq(vals, LAMBDA v : v <= x))
Nth(vals, k) ==  \* k-th smallest, from 1
  CHOOSE x \in {vals[i] : i \in DOMAIN vals} : CountLess(vals, x) < k /\ k <= CountLeq(vals, x)
MedianIsZero(vals) ==
  LET n == Len(vals)
  IN IF n % 2 = 1 THEN Nth(vals, (n + 1) \div 2) = 0
     ELSE Nth(vals, n \div 2) + Nth(vals, n \div 2 + 1) = 0
ThresholdMarks(vals, thresh) ==
  IF MedianIsZero(vals) THEN {i \in DOMAIN vals : vals[i] >= thresh}
  ELSE {i \in DOMAIN vals : vals[i] <= thresh}
NonZeroMarks(vals) == {i \in DOMAIN vals : vals[i] # 0}
PixelOf(i, w) == <<(i - 1) \div w, (i - 1) % w>>
PixelsOf(I, w) == {PixelOf(i, w) : i \in I}

Unusable(kind, val8) == kind # 0 \/ val8 < LowLimit \/ val8 > HighLimit

(* ------------------------------ what is promised ---------------------- *)
(* src \in {"array","masked","path","hdu","hdulist"};
   given \in {"none","array","file"}; ext: a mask extension is present. *)
UsesExtension(src, given, ext, guess) ==
  given = "none" /\ guess /\ ext /\ src \in {"path", "hdulist"}
UsesOwnMask(src, given) == src = "masked" /\ given = "none"
=============================================================================
