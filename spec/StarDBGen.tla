------------------------------- MODULE StarDBGen -------------------------------
EXTENDS StarDBNames, Json
CONSTANTS MaxLen
VARIABLES hist
GInit == Init /\ hist = <<>>
Step(op, i, x, A) == A /\ hist' = Append(hist, [op |-> op, i |-> i, x |-> x])
GNext == /\ Len(hist) < MaxLen
         /\ \/ \E i \in Images, p \in Procs : Step("new", i, ToString(p), New(i, p))
            \/ \E p \in Procs : Step("fork", p, "", Fork(p) /\ st = [i \in Images |-> "none"])
            \/ \E i \in Images : \/ Step("cut", i, "", Cut(i)) \/ Step("read", i, "", Read(i))
                                 \/ \E x \in {"end", "clean", "ValueError", "OSError", "KeyboardInterrupt", "StopIteration"} :
                                       Step("leave", i, x, Leave(i))
                                 \/ Step("drop", i, "", Drop(i))
                                 \/ \E f \in files : Step("lose", i, f.ext, Lose(i, f))
Interesting == Cardinality({i \in Images : \E k \in DOMAIN hist : hist[k].op = "cut" /\ hist[k].i = i}) > 1
Emit == (Len(hist) = MaxLen /\ Interesting) => PrintT("@@GEN " \o ToJson(hist))
===============================================================================
