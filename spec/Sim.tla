--------------------------------- MODULE Sim ---------------------------------
(***************************************************************************)
(* Simulated images and the random streams they draw from (C17).           *)
(*                                                                         *)
(* Without a seed a call draws from the one shared stream and moves it on; *)
(* with a seed it draws from a stream of its own.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Seeds,      \* seeds used; NoSeed is no seed
          Most,       \* calls in a history
          Design      \* "sound", "reseeds" (a seeded call seeds the shared stream), "zero" (seed 0 taken as none), "fixed" (unseeded calls restart the stream)
NoSeed == 99
What == {"poisson", "gaussian", "frame"}
(* draws from the stream of one call of a kind *)
Draws(w) == IF w = "frame" THEN 12 ELSE 1
VARIABLES hist, shared, results
vars == <<hist, shared, results>>
Init == hist = <<>> /\ shared = <<"start", 0>> /\ results = <<>>
Own(s) == s # NoSeed /\ ~(Design = "zero" /\ s = 0)
Call(w, s) ==
  /\ hist' = Append(hist, <<w, s>>)
  /\ IF Own(s) THEN /\ results' = Append(results, <<w, "seed", s, 0>>)
                    /\ shared' = IF Design = "reseeds" THEN <<"seed", s>> ELSE shared
     ELSE /\ results' = Append(results, <<w, shared[1], IF shared[1] = "seed" THEN shared[2] ELSE 0, IF shared[1] = "seed" THEN 0 ELSE shared[2]>>)
          /\ shared' = IF Design = "fixed" THEN shared ELSE <<shared[1], shared[2] + Draws(w)>>
Next == Len(hist) < Most /\ \E w \in What, s \in Seeds \cup {NoSeed} : Call(w, s)
Spec == Init /\ [][Next]_vars
(* what a seeded call gives depends on the call alone *)
SeededAlone == \A i \in DOMAIN hist : hist[i][2] # NoSeed => results[i] = <<hist[i][1], "seed", hist[i][2], 0>>
(* unseeded calls never repeat *)
UnseededDiffer == \A i, j \in DOMAIN hist : i # j /\ hist[i][2] = NoSeed /\ hist[j][2] = NoSeed => results[i] # results[j]
RECURSIVE Unseeded(_, _)
Unseeded(h, r) == IF h = <<>> THEN <<>> ELSE (IF Head(h)[2] = NoSeed THEN <<Head(r)>> ELSE <<>>) \o Unseeded(Tail(h), Tail(r))
RECURSIVE Alone(_, _)
Alone(h, n) == IF h = <<>> THEN <<>> ELSE IF Head(h)[2] = NoSeed THEN <<<<Head(h)[1], "start", 0, n>>>> \o Alone(Tail(h), n + Draws(Head(h)[1])) ELSE Alone(Tail(h), n)
(* seeded calls leave the shared stream where it was *)
StreamUntouched == Unseeded(hist, results) = Alone(hist, 0)
===============================================================================
