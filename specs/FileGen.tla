------------------------------- MODULE FileGen -------------------------------
(* Histories of a replay: initial limit, then runs, limit changes, growth.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist
Init == hist \in {<<<<"limit", n>>>> : n \in {-1, 0, 1, 2, 3, 100}}
Next == /\ Len(hist) < Depth
        /\ \E x \in {<<"run", 0>>, <<"raise", 1>>, <<"raise", 2>>, <<"limit", -1>>, <<"grow", 0>>, <<"stop", 0>>} : hist' = Append(hist, x)
Spec == Init /\ [][Next]_hist
Out == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
