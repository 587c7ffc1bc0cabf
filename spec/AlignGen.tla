------------------------------- MODULE AlignGen -------------------------------
(* Scenarios: per image an offset, a turn, a size and a pattern of bad      *)
(* pixels; the operation and the form of its inputs.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N
VARIABLE s
Offsets == {<<0, 0>>, <<6, -4>>, <<5, 3>>, <<-13, 8>>}    \* half pixels
Turns == {"none", "slight", "quarter", "half"}
Sizes == {"same", "larger", "smaller"}
Bads == {"none", "isolated", "block", "edge", "nan"}
Init == s \in [off : Offsets, turn : Turns, size : Sizes, bad : Bads, first : {"none", "block", "nan"}, op : {"coadd", "subtract", "fitted"}, n : 2..N]
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == (s.op # "coadd" => s.n = 2) => PrintT("@@GEN " \o ToJson(s))
===============================================================================
