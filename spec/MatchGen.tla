------------------------------- MODULE MatchGen -------------------------------
(* Random sets of catalogues and random sequences of calls on them.  Stars
   come in clumps, so that nearest neighbours, mutual or not, abound. *)
EXTENDS Match, Json
CONSTANTS MaxStars, MaxImages, MaxCalls, Clumps
VARIABLES sky, cats, calls, st
vars == <<sky, cats, calls, st>>
Init == sky = <<>> /\ cats = <<>> /\ calls = <<>> /\ st = "sky"
Spot(cx, cy, dx, dy) == [x |-> 300 * cx + dx, y |-> 300 * cy + dy]
Star == /\ st = "sky" /\ Len(sky) < MaxStars
        /\ \E s \in {Spot(RandomElement(0..(Clumps - 1)), RandomElement(0..(Clumps - 1)), RandomElement({0, 3, 7, 11, 16, 23}), RandomElement({0, 5, 9, 14}))} :
              sky' = IF \E i \in DOMAIN sky : sky[i] = s THEN sky ELSE Append(sky, s)
        /\ st' = (IF RandomElement(1..MaxStars + 4) = 1 THEN "images" ELSE "sky") /\ UNCHANGED <<cats, calls>>
Full == st = "sky" /\ Len(sky) = MaxStars /\ st' = "images" /\ UNCHANGED <<sky, cats, calls>>
(* an image sees some of the stars, displaced, in some order *)
Seen(keep) == SelectSeq([i \in 1..Len(sky) |-> i], LAMBDA i : RandomElement(1..10) <= keep)
Shuffled(s) == IF s = <<>> THEN s ELSE LET k == RandomElement(1..Len(s)) IN SubSeq(s, k, Len(s)) \o [i \in 1..(k - 1) |-> s[k - i]]
Image == /\ st = "images" /\ Len(cats) < MaxImages
         /\ \E who \in {TLCEval(Shuffled(TLCEval(Seen(RandomElement({6, 9, 10, 10})))))}, z \in {RandomElement(-2000..2000)} :
            cats' = Append(cats, TLCEval([n \in DOMAIN who |->
               [x |-> sky[who[n]].x + RandomElement({-9, -4, -1, 0, 2, 6}), y |-> sky[who[n]].y + RandomElement({-8, -3, 0, 1, 5}),
                mag |-> 12000 + 37 * who[n] * who[n] + z + RandomElement(-90..90)]]))
         /\ st' = (IF Len(cats) >= 1 /\ RandomElement(1..3) = 1 THEN "calls" ELSE "images") /\ UNCHANGED <<sky, calls>>
Enough == st = "images" /\ Len(cats) = MaxImages /\ st' = "calls" /\ UNCHANGED <<sky, cats, calls>>
Orders == {o \in UNION {[1..n -> DOMAIN cats] : n \in 1..Len(cats)} : \A i, j \in DOMAIN o : o[i] = o[j] => i = j}
Call == /\ st = "calls" /\ Len(calls) < MaxCalls
        /\ \E o \in {RandomElement(Orders)}, mast \in {IF RandomElement(1..2) = 1 THEN 0 ELSE RandomElement(DOMAIN cats)} :
           calls' = Append(calls, [master |-> IF \E i \in DOMAIN o : o[i] = mast THEN 0 ELSE mast, images |-> o])
        /\ st' = (IF RandomElement(1..3) = 1 THEN "go" ELSE "calls") /\ UNCHANGED <<sky, cats>>
Done == st = "calls" /\ Len(calls) = MaxCalls /\ st' = "go" /\ UNCHANGED <<sky, cats, calls>>
Next == Star \/ Full \/ Image \/ Enough \/ Call \/ Done
Emit == st = "go" => PrintT("@@GEN " \o ToJson([cats |-> cats, calls |-> calls]))
===============================================================================
