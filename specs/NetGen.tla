------------------------------- MODULE NetGen -------------------------------
(* Sequences of connections, frames, departures, stops and starts.         *)
EXTENDS Net, TLC, Json
CONSTANTS N, Clients
VARIABLES up, cl, hist
Init == up = {"tcp", "ws"} /\ cl = [c \in 1..Clients |-> ""] /\ hist = <<>>
Rec(o, c, k, m) == hist' = Append(hist, [op |-> o, c |-> c, k |-> k, m |-> m])
Sent == hist # <<>> /\ hist[Len(hist)].op = "send"
Next == /\ Len(hist) < N
        /\ \/ \E c \in 1..Clients, k \in Kinds, m \in {"raw", "lib"} :
                /\ cl[c] = "" /\ k \in up /\ (c > 1 => cl[c - 1] # "") /\ cl' = [cl EXCEPT ![c] = k] /\ UNCHANGED up /\ Rec("conn", c, k, m)
           \/ \E c \in 1..Clients, m \in {"close", "abort"} :
                /\ cl[c] # "" /\ cl' = [cl EXCEPT ![c] = ""] /\ UNCHANGED up /\ Rec("leave", c, cl[c], m)
           \/ ~Sent /\ (\E c \in 1..Clients : cl[c] # "") /\ UNCHANGED <<up, cl>> /\ Rec("send", 0, "", "")
           \/ \E k \in up : /\ (\E c \in 1..Clients : cl[c] = k) /\ up' = up \ {k}
                            /\ cl' = [c \in 1..Clients |-> IF cl[c] = k THEN "" ELSE cl[c]] /\ Rec("stop", 0, k, "")
           \/ \E k \in Kinds \ up : up' = up \cup {k} /\ UNCHANGED cl /\ Rec("start", 0, k, "")
Spec == Init /\ [][Next]_<<up, cl, hist>>
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
