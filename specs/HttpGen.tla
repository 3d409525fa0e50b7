------------------------------- MODULE HttpGen ------------------------------
(* Sequences of registrations and requests with the status of every answer. *)
EXTENDS Http, TLC, Json
CONSTANT N
VARIABLES table, hist
Init == table = <<>> @@ (<<"GET", "/">> :> 9) /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \/ \E m \in Methods, p \in {"/", "/a"} :
                /\ table' = Registered(table, m, p, Len(hist) + 1)
                /\ hist' = Append(hist, [op |-> "add", m |-> m, p |-> p, ok |-> TRUE, status |-> 0])
           \/ \E m \in {"GET", "HEAD", "POST", "PUT"}, p \in {"/", "/a", "/b"}, ok \in BOOLEAN :
                /\ ~ok => Handler(table, m, p) \notin {0, 9}
                /\ hist' = Append(hist, [op |-> "req", m |-> m, p |-> p, ok |-> ok, status |-> Status(table, m, p, ok)])
                /\ UNCHANGED table
Spec == Init /\ [][Next]_<<table, hist>>
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
