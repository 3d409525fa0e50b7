---------------------------- MODULE PeriodicGen ----------------------------
EXTENDS Sequences, TLC, Json, Integers
CONSTANT N
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < N /\ \E op \in {"start", "stop", "pause", "unpause", "slower", "faster", "long", "short", "wait", "scale"} : hist' = Append(hist, op)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
