-------------------------------- MODULE Coadd --------------------------------
(***************************************************************************)
(* Division of a coaddition among workers (C08).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------- chunks -------------------------------- *)
Elements(c) == {c[i] : i \in DOMAIN c}
ConsecutiveRun(c) == \A i \in 1..(Len(c)-1) : c[i + 1] = c[i] + 1
(* cs, a sequence of chunks, divides 1..n into at most k runs *)
IsSplit(cs, n, k) ==
  /\ Len(cs) <= k
  /\ \A j \in DOMAIN cs : Len(cs[j]) > 0 /\ ConsecutiveRun(cs[j])
  /\ \A x \in 1..n : Cardinality({<<j, i>> \in (1..Len(cs)) \X (1..n) : i \in DOMAIN cs[j] /\ cs[j][i] = x}) = 1
  /\ \A j \in DOMAIN cs : Elements(cs[j]) \subseteq 1..n
RunOf(lo, hi) == [i \in 1..(hi - lo) |-> lo + i]
Bounds(n, k, j) == (j * n) \div k
Proportional(n, k) == SelectSeq([j \in 1..k |-> RunOf(Bounds(n, k, j - 1), Bounds(n, k, j))], LAMBDA c : Len(c) > 0)
(* the code before its repair: empty runs and possibly one too many *)
StepRun(n, k, j) == LET a == ((n * 10) \div k) IN RunOf((j * a) \div 10, IF ((j + 1) * a) \div 10 > n THEN n ELSE ((j + 1) * a) \div 10)
Stepping(n, k) == [j \in 1..(k + (IF (n * 10) % k = 0 THEN 0 ELSE 1)) |-> StepRun(n, k, j - 1)]

(* ------------------------------- workers ------------------------------- *)
CONSTANTS MaxImages, MaxWorkers,
          Split,        \* "proportional" or "stepping"
          Shared        \* TRUE: workers add to one common sum without exclusion
VARIABLES n, k, chunks, at, hold, acc, total, merged, pc, order
vars == <<n, k, chunks, at, hold, acc, total, merged, pc, order>>
NoImage == [i \in 1..MaxImages |-> 0]
Plus(a, b) == [i \in 1..MaxImages |-> a[i] + b[i]]
One(x) == [i \in 1..MaxImages |-> IF i = x THEN 1 ELSE 0]

Init == /\ n \in 1..MaxImages /\ k \in 1..MaxWorkers
        /\ chunks = IF k = 1 THEN <<RunOf(0, n)>> ELSE IF Split = "proportional" THEN Proportional(n, k) ELSE Stepping(n, k)
        /\ at = [w \in 1..(MaxWorkers + 1) |-> 1] /\ hold = [w \in 1..(MaxWorkers + 1) |-> <<>>]
        /\ acc = [w \in 1..(MaxWorkers + 1) |-> NoImage]
        /\ total = NoImage /\ merged = 0 /\ pc = "work" /\ order = <<>>
Workers == DOMAIN chunks
Finished(w) == at[w] > Len(chunks[w]) /\ hold[w] = <<>>
(* a worker asks an image for its contribution... *)
Fetch(w) == /\ pc = "work" /\ hold[w] = <<>> /\ at[w] <= Len(chunks[w])
            /\ hold' = [hold EXCEPT ![w] = <<chunks[w][at[w]], IF Shared THEN total ELSE acc[w]>>]
            /\ UNCHANGED <<n, k, chunks, at, acc, total, merged, pc, order>>
(* ... and adds it to what it had read *)
Add(w) == /\ pc = "work" /\ hold[w] # <<>>
          /\ LET new == Plus(hold[w][2], One(hold[w][1]))
             IN IF Shared THEN total' = new /\ UNCHANGED acc ELSE acc' = [acc EXCEPT ![w] = new] /\ UNCHANGED total
          /\ at' = [at EXCEPT ![w] = @ + 1] /\ hold' = [hold EXCEPT ![w] = <<>>]
          /\ order' = Append(order, hold[w][1])
          /\ UNCHANGED <<n, k, chunks, merged, pc>>
Merge == /\ pc = "work" /\ \A w \in Workers : Finished(w)
         /\ IF Shared \/ merged = Len(chunks) THEN pc' = "done" /\ UNCHANGED <<total, merged>>
            ELSE total' = Plus(total, acc[merged + 1]) /\ merged' = merged + 1 /\ UNCHANGED pc
         /\ UNCHANGED <<n, k, chunks, at, hold, acc, order>>
Next == Merge \/ \E w \in Workers : Fetch(w) \/ Add(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

EachImageOnce == pc = "done" => \A i \in 1..MaxImages : total[i] = IF i <= n THEN 1 ELSE 0
NeverTwice == \A i \in 1..MaxImages : total[i] <= 1
SplitIsSplit == k > 1 => IsSplit(chunks, n, k)
Ends == <>(pc = "done")
===============================================================================
