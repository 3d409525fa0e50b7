--------------------------- MODULE QueueDaemonGen ---------------------------
EXTENDS Sequences, TLC, Json, Integers
CONSTANT N
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < N /\ \E op \in {"put", "start", "stop", "restart", "wait", "await"} : hist' = Append(hist, op)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
