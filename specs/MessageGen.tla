------------------------------ MODULE MessageGen ------------------------------
(* Behaviours to replay: fragments <<message, index>> of three messages with *)
(* one, two and three fragments, and (with Restarts) saves, clean-ups,       *)
(* reloads and stops while receiving.                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Restarts
VARIABLES hist
Frags == {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<2, 2>>, <<3, 0>>}
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E f \in Frags : hist' = Append(hist, <<"in", f[1], f[2]>>)
           \/ Restarts /\ \E f \in Frags \ {<<3, 0>>, <<2, 2>>} : hist' = Append(hist, <<"stop", f[1], f[2]>>)
           \/ Restarts /\ hist # <<>> /\ \E x \in {"save", "clean", "load"} : hist' = Append(hist, <<x, 0, 0>>)
Spec == Init /\ [][Next]_hist
Out == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
