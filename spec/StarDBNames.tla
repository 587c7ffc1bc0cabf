------------------------------ MODULE StarDBNames ------------------------------
(***************************************************************************)
(* A design of the stores: every image gets a name when it is created, and *)
(* its two files are called after it.  Processes are forked from the first *)
(* one and inherit its state.  NameBy says where names come from:          *)
(*   "unique"  never given twice by anybody                                *)
(*   "counter" a counter (or random state) kept in the process             *)
(*   "pixels"  made from the pixels of the image                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Images, Procs, NameBy, MaxLose,
          CleanBoth   \* FALSE: clean-up stops at the first missing file

VARIABLES st, name, proc, forked, count, files, lost, seen
vars == <<st, name, proc, forked, count, files, lost, seen>>
Ext == {"dat", "map"}
Pixels(i) == IF i = 2 THEN 1 ELSE i    \* images 1 and 2 show the same
Fresh == CHOOSE n \in 1..(Cardinality(Images) + 1) : \A i \in Images : name[i] # n

Init == /\ st = [i \in Images |-> "none"] /\ name = [i \in Images |-> 0] /\ proc = [i \in Images |-> 0]
        /\ forked = {0} /\ count = [p \in Procs |-> 0]
        /\ files = {}     \* [name, ext, by]
        /\ lost = {} /\ seen = [i \in Images |-> i]
Fork(p) == /\ p \in Procs \ forked /\ forked' = forked \cup {p}
           /\ count' = [count EXCEPT ![p] = count[0]]
           /\ UNCHANGED <<st, name, proc, files, lost, seen>>
New(i, p) ==
  /\ st[i] = "none" /\ p \in forked
  /\ st' = [st EXCEPT ![i] = "live"] /\ proc' = [proc EXCEPT ![i] = p]
  /\ count' = [count EXCEPT ![p] = @ + 1]
  /\ name' = [name EXCEPT ![i] = CASE NameBy = "unique" -> Fresh
                                   [] NameBy = "counter" -> count[p] + 1
                                   [] NameBy = "pixels" -> Pixels(i)]
  /\ UNCHANGED <<forked, files, lost, seen>>
Of(i) == {f \in files : f.name = name[i]}
(* opening for writing truncates whatever was there *)
Cut(i) ==
  /\ st[i] = "live"
  /\ st' = [st EXCEPT ![i] = "cut"]
  /\ files' = (files \ Of(i)) \cup {[name |-> name[i], ext |-> e, by |-> i] : e \in Ext}
  /\ UNCHANGED <<name, proc, forked, count, lost, seen>>
Read(i) ==
  /\ st[i] = "cut" /\ i \notin lost
  /\ seen' = [seen EXCEPT ![i] = IF \E f \in Of(i) : f.ext = "dat"
                                 THEN (CHOOSE f \in Of(i) : f.ext = "dat").by
                                 ELSE 0]
  /\ UNCHANGED <<st, name, proc, forked, count, files, lost>>
Lose(i, f) ==
  /\ st[i] = "cut" /\ Cardinality(lost) < MaxLose /\ f \in Of(i) /\ f.by = i
  /\ files' = files \ {f} /\ lost' = lost \cup {i}
  /\ UNCHANGED <<st, name, proc, forked, count, seen>>
Leave(i) ==
  /\ st[i] \in {"live", "cut", "left"}
  /\ st' = [st EXCEPT ![i] = "left"]
  /\ files' = IF CleanBoth \/ \E f \in Of(i) : f.ext = "dat" THEN files \ Of(i) ELSE files
  /\ UNCHANGED <<name, proc, forked, count, lost, seen>>
Drop(i) ==
  /\ st[i] \in {"live", "cut"}
  /\ st' = [st EXCEPT ![i] = "dropped"]
  /\ UNCHANGED <<name, proc, forked, count, files, lost, seen>>
Next == \/ \E p \in Procs : Fork(p)
        \/ \E i \in Images, p \in Procs : New(i, p)
        \/ \E i \in Images : Cut(i) \/ Read(i) \/ Leave(i) \/ Drop(i) \/ \E f \in files : Lose(i, f)
Spec == Init /\ [][Next]_vars

(* the ownership specification, and what it asks of names *)
owned == [i \in Images |-> {<<f.name, f.ext>> : f \in {f \in files : f.by = i}}]
S == INSTANCE StarDB
StepOfOwnership ==
  \/ \E i \in Images : \/ S!New(i) \/ S!Read(i) \/ S!Leave(i) \/ S!Drop(i)
                       \/ S!Cut(i, {<<name[i], e>> : e \in Ext}) \/ \E f \in owned[i] : S!Lose(i, f)
  \/ UNCHANGED <<st, owned>>
Implements == S!SInit /\ [][StepOfOwnership]_vars
Private == S!Private
LeftNothing == S!LeftNothing
ReadsOwn == \A i \in Images : st[i] = "cut" => seen[i] = i
===============================================================================
