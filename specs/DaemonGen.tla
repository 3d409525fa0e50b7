----------------------------- MODULE DaemonGen -----------------------------
(* Every history of operations requested one after the other, with the     *)
(* moment at which the task ends by itself.                                *)
EXTENDS Daemon, TLC, Json
CONSTANT N
VARIABLE hist
Init == hist = <<>>
Next == /\ Len(hist) < N
        /\ \E op \in Operations \cup {"restart", "finish", "p:start", "p:stop", "p:pause", "p:unpause", "p:restart"} : hist' = Append(hist, op)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
