------------------------------ MODULE ClockGen ------------------------------
EXTENDS Sequences, TLC, Json, Integers
CONSTANT N
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < N /\ \E op \in {"iter", "wait", "scale", "set", "dist", "add", "sleep", "run"} : hist' = Append(hist, op)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
