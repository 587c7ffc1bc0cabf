------------------------------- MODULE SimTrace -------------------------------
(* Results of calls are numbered: equal numbers, equal images.              *)
EXTENDS TraceLib
M == INSTANCE Sim WITH Seeds <- {}, Most <- 0, Design <- "sound", hist <- <<>>, shared <- <<>>, results <- <<>>
VARIABLES rec, done
NoSeed == M!NoSeed
Key(s) == <<s.what, s.seed, s.par>>
HistFails(r) ==
  Clause("seeded-call-repeats", \A i, j \in DOMAIN r.steps : r.steps[i].seed # NoSeed /\ Key(r.steps[i]) = Key(r.steps[j]) => r.steps[i].res = r.steps[j].res)
  \cup Clause("seeded-call-depends-on-history", \A i \in DOMAIN r.steps : r.steps[i].seed # NoSeed => r.steps[i].res = r.steps[i].fresh)
  \cup Clause("other-seed-same-image", \A i, j \in DOMAIN r.steps : r.steps[i].seed # r.steps[j].seed => r.steps[i].res # r.steps[j].res)
  \cup Clause("unseeded-calls-repeat", \A i, j \in DOMAIN r.steps : i # j /\ r.steps[i].seed = NoSeed /\ r.steps[j].seed = NoSeed => r.steps[i].res # r.steps[j].res)
  \cup Clause("seeded-call-moves-shared-stream", \A i \in DOMAIN r.steps : r.steps[i].seed = NoSeed => r.steps[i].res = r.steps[i].fresh)
  \cup Clause("arguments-altered", r.untouched)
(* point fields: later deltas at the same pixel replace earlier ones *)
Latest(p, y, x) == {k \in DOMAIN p : p[k][1] = y /\ p[k][2] = x /\ \A j \in DOMAIN p : (j > k) => ~(p[j][1] = y /\ p[j][2] = x)}
PointFails(r) ==
  Clause("size", r.square) \cup
  (IF ~r.square THEN {} ELSE
   Clause("deltas", \A y \in 1..r.n : \A x \in 1..r.n : LET L == Latest(r.pts, y - 1, x - 1) IN
            r.grid[y][x] = (IF L = {} THEN 0 ELSE r.pts[CHOOSE k \in L : TRUE][3])))
ProductPairs(r) == LET n == [a \in DOMAIN r.arrays |-> Len(r.arrays[a])] IN
     /\ Len(r.out) = FoldSeq(LAMBDA a, b : a * b, 1, n)
     /\ \A i \in DOMAIN r.out : Len(r.out[i]) = Len(r.arrays)
     /\ \A i, j \in DOMAIN r.out : r.out[i] = r.out[j] => i = j
     /\ \A i \in DOMAIN r.out : \A a \in DOMAIN r.arrays : r.out[i][a] \in Range1(r.arrays[a])
ProductFails(r) ==
  \* the last coordinate runs fastest
  (IF ~ProductPairs(r) THEN {"pairs"} ELSE Clause("order", \A i \in 1..(Len(r.out) - 1) : LET c == CHOOSE a \in DOMAIN r.arrays : r.out[i][a] # r.out[i + 1][a] /\ \A b \in 1..(a - 1) : r.out[i][b] = r.out[i + 1][b]
                                                       At(a, v) == CHOOSE k \in DOMAIN r.arrays[a] : r.arrays[a][k] = v IN
                                   At(c, r.out[i + 1][c]) = At(c, r.out[i][c]) + 1))
KernelFails(r) ==
  UNION {Clause(k, r.ok[k]) : k \in DOMAIN r.ok}
  \cup Clause("unit-sum", r.sum <= 1000) \cup Clause("mirror-symmetric", r.mirror <= 1000) \cup Clause("centred", r.centre <= r.slack)
  \cup Clause("width-along-rows", r.wy <= r.wtol) \cup Clause("width-along-columns", r.wx <= r.wtol)
FrameFails(r) == Clause("size", r.size) \cup
  (IF r.size THEN Clause("quadrants-once-each-down-columns", r.at = <<1, 2, 3, 4>>) ELSE {})
Fails(r) == CASE r.kind = "history" -> HistFails(r) [] r.kind = "points" -> PointFails(r) [] r.kind = "product" -> ProductFails(r)
              [] r.kind = "kernel" -> KernelFails(r) [] r.kind = "frame" -> FrameFails(r)
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
