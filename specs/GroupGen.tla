------------------------------ MODULE GroupGen ------------------------------
EXTENDS Sequences, TLC, Json, Integers
CONSTANT N
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < N /\ \E op \in {"group", "add", "enum", "dup", "data", "fail", "unknown", "bad", "badenum", "set", "dispatch"} : hist' = Append(hist, op)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
