----------------------------- MODULE CommandGen -----------------------------
EXTENDS Sequences, TLC, Json, Integers
CONSTANT N
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < N /\ \E op \in {"ok", "fail", "raise", "two", "mixed", "unknown", "nameless", "odd", "help", "helpone", "exec", "execbad", "register", "silent"} :
          hist' = Append(hist, op)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
