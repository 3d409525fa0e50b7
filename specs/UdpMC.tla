-------------------------------- MODULE UdpMC --------------------------------
(* Destinations are attached to the writer and entered in a table; both    *)
(* the writer (on failure) and requests (on removal) detach and close.     *)
EXTENDS Integers, FiniteSets
CONSTANTS Hosts, Requests, Frames
VARIABLES att, table, closes, lock, req, wr, frame, todo, fails, got, missing
vars == <<att, table, closes, lock, req, wr, frame, todo, fails, got, missing>>
Rest == [at |-> "rest", h |-> CHOOSE h \in Hosts : TRUE]
Init == /\ att = {} /\ table = {} /\ closes = [h \in Hosts |-> 0] /\ lock = "free" /\ req = [r \in Requests |-> Rest]
        /\ wr = Rest /\ frame = 0 /\ todo = {} /\ fails = {} /\ got = [h \in Hosts |-> {}] /\ missing = FALSE
Begin(r) == /\ req[r].at = "rest" /\ lock = "free" /\ lock' = r
            /\ \E h \in Hosts : \/ /\ closes[h] = 0 /\ h \notin att \cup table /\ h \notin fails
                                   /\ req' = [req EXCEPT ![r] = [at |-> "attach", h |-> h]]
                                \/ req' = [req EXCEPT ![r] = [at |-> "detach", h |-> h]]
            /\ UNCHANGED <<att, table, closes, wr, frame, todo, fails, got, missing>>
Attach(r) == /\ req[r].at = "attach" /\ att' = att \cup {req[r].h} /\ req' = [req EXCEPT ![r].at = "enter"]
             /\ UNCHANGED <<table, closes, lock, wr, frame, todo, fails, got, missing>>
Enter(r) == /\ req[r].at = "enter" /\ table' = table \cup {req[r].h} /\ req' = [req EXCEPT ![r].at = "rest"] /\ lock' = "free"
            /\ UNCHANGED <<att, closes, wr, frame, todo, fails, got, missing>>
Detach(r) == LET h == req[r].h IN
             /\ req[r].at = "detach"
             /\ IF h \in att THEN att' = att \ {h} /\ req' = [req EXCEPT ![r].at = "close"] /\ UNCHANGED lock
                ELSE req' = [req EXCEPT ![r].at = "rest"] /\ lock' = "free" /\ UNCHANGED att
             /\ UNCHANGED <<table, closes, wr, frame, todo, fails, got, missing>>
Close(r) == LET h == req[r].h IN
            /\ req[r].at = "close" /\ missing' = (missing \/ h \notin table) /\ table' = table \ {h} /\ closes' = [closes EXCEPT ![h] = @ + 1]
            /\ req' = [req EXCEPT ![r].at = "rest"] /\ lock' = "free"
            /\ UNCHANGED <<att, wr, frame, todo, fails, got>>
Take == /\ wr.at = "rest" /\ frame < Frames /\ frame' = frame + 1 /\ todo' = att /\ wr' = [wr EXCEPT !.at = "send"]
        /\ UNCHANGED <<att, table, closes, lock, req, fails, got, missing>>
Send(h) == /\ wr.at = "send" /\ h \in todo /\ todo' = todo \ {h}
           /\ \/ got' = [got EXCEPT ![h] = @ \cup {frame}] /\ UNCHANGED <<fails, wr>>
              \/ fails' = fails \cup {h} /\ wr' = [at |-> "drop", h |-> h] /\ UNCHANGED got
           /\ UNCHANGED <<att, table, closes, lock, req, frame, missing>>
Drop == /\ wr.at = "drop"
        /\ IF wr.h \in att THEN att' = att \ {wr.h} /\ wr' = [wr EXCEPT !.at = "lock"] ELSE wr' = [wr EXCEPT !.at = "send"] /\ UNCHANGED att
        /\ UNCHANGED <<table, closes, lock, req, frame, todo, fails, got, missing>>
Handle == /\ wr.at = "lock" /\ lock = "free" /\ missing' = (missing \/ wr.h \notin table) /\ table' = table \ {wr.h}
          /\ closes' = [closes EXCEPT ![wr.h] = @ + 1] /\ wr' = [wr EXCEPT !.at = "send"]
          /\ UNCHANGED <<att, lock, req, frame, todo, fails, got>>
Sent == wr.at = "send" /\ todo = {} /\ wr' = [wr EXCEPT !.at = "rest"] /\ UNCHANGED <<att, table, closes, lock, req, frame, todo, fails, got, missing>>
Next == \/ \E r \in Requests : Begin(r) \/ Attach(r) \/ Enter(r) \/ Detach(r) \/ Close(r)
        \/ Take \/ Drop \/ Handle \/ Sent \/ \E h \in Hosts : Send(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Drop) /\ SF_vars(Handle) /\ WF_vars(Sent) /\ \A h \in Hosts : WF_vars(Send(h))
        /\ \A r \in Requests : WF_vars(Attach(r)) /\ WF_vars(Enter(r)) /\ WF_vars(Detach(r)) /\ WF_vars(Close(r))
ClosedOnce == \A h \in Hosts : closes[h] <= 1
OpenWhileAttached == \A h \in att : closes[h] = 0
NoneMissing == ~missing
Quiescent == wr.at = "rest" /\ \A r \in Requests : req[r].at = "rest"
NoneLeft == Quiescent => att = table
AllSent == <>(frame = Frames /\ wr.at = "rest")
=============================================================================
