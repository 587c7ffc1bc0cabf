-------------------------------- MODULE StarDB --------------------------------
(***************************************************************************)
(* Star-stamp stores (C07): who owns which temporary file.  Nothing is     *)
(* said about how files are named: using an image creates or changes only  *)
(* files of its own, what it reads is what it wrote, and leaving its       *)
(* context removes exactly the files of its own that still exist.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Images
VARIABLES st,      \* image -> "none", "live", "cut", "left", "dropped"
          owned    \* image -> files it created that still exist
svars == <<st, owned>>

Files == UNION {owned[i] : i \in Images}

SInit == st = [i \in Images |-> "none"] /\ owned = [i \in Images |-> {}]
New(i) == st[i] = "none" /\ st' = [st EXCEPT ![i] = "live"] /\ UNCHANGED owned
(* F: files that did not exist *)
Cut(i, F) == /\ st[i] = "live" /\ F \cap Files = {}
             /\ st' = [st EXCEPT ![i] = "cut"] /\ owned' = [owned EXCEPT ![i] = @ \cup F]
Read(i) == st[i] = "cut" /\ UNCHANGED svars
(* the file disappears by itself *)
Lose(i, f) == /\ st[i] \in {"live", "cut"} /\ f \in owned[i]
              /\ owned' = [owned EXCEPT ![i] = @ \ {f}] /\ UNCHANGED st
(* by the end of its block, an exception, or an explicit clean-up; again and again *)
Leave(i) == /\ st[i] \in {"live", "cut", "left"}
            /\ st' = [st EXCEPT ![i] = "left"] /\ owned' = [owned EXCEPT ![i] = {}]
(* forgotten without leaving the context: its files stay *)
Drop(i) == /\ st[i] \in {"live", "cut"} /\ st' = [st EXCEPT ![i] = "dropped"] /\ UNCHANGED owned

Private == \A i, j \in Images : i # j => owned[i] \cap owned[j] = {}
LeftNothing == \A i \in Images : st[i] = "left" => owned[i] = {}
===============================================================================
