------------------------------- MODULE NetMC --------------------------------
(* Clients connect, leave and stop reading at any time, while a writer     *)
(* passes frames on to those that are attached, and the service stops and  *)
(* starts.  Drop = TRUE: the writer loses the rest of its outputs when one *)
(* of them fails (a defect this model must be able to show).               *)
EXTENDS Net, TLC
CONSTANTS Clients, MaxFrames, MaxStops, Drop
VARIABLES svc, n, queue, cur, targets, cl, buf, stops
vars == <<svc, n, queue, cur, targets, cl, buf, stops>>
Settled == n - Len(queue) - (IF cur = 0 THEN 0 ELSE 1)
Init == /\ svc = "up" /\ n = 0 /\ queue = <<>> /\ cur = 0 /\ targets = {} /\ stops = 0
        /\ cl = [c \in Clients |-> NoConn] /\ buf = [c \in Clients |-> <<>>]
Connect(c) == /\ svc = "up" /\ cl[c].st = "off"
              /\ cl' = [cl EXCEPT ![c] = Connecting("tcp", Settled)] /\ UNCHANGED <<svc, n, queue, cur, targets, buf, stops>>
(* while the service stops nobody is accepted any more *)
Accept(c) == /\ cl[c].st = "conn"
             /\ cl' = [cl EXCEPT ![c] = IF svc = "up" THEN Accepted(@, n) ELSE [@ EXCEPT !.st = "ended"]]
             /\ UNCHANGED <<svc, n, queue, cur, targets, buf, stops>>
Send == n < MaxFrames /\ n' = n + 1 /\ queue' = Append(queue, n + 1) /\ UNCHANGED <<svc, cur, targets, cl, buf, stops>>
Take == /\ cur = 0 /\ queue # <<>> /\ cur' = Head(queue) /\ queue' = Tail(queue)
        /\ targets' = {c \in Clients : cl[c].st \in {"on", "left"}}
        /\ UNCHANGED <<svc, n, cl, buf, stops>>
Write(c) == /\ cur # 0 /\ c \in targets
            /\ IF cl[c].st = "on" THEN /\ buf' = [buf EXCEPT ![c] = Append(@, cur)] /\ targets' = targets \ {c} /\ UNCHANGED cl
               ELSE /\ targets' = IF Drop THEN {} ELSE targets \ {c}
                    /\ cl' = [cl EXCEPT ![c].st = IF @ = "left" THEN "off" ELSE @] /\ UNCHANGED buf
            /\ UNCHANGED <<svc, n, queue, cur, stops>>
Done == cur # 0 /\ targets = {} /\ cur' = 0 /\ UNCHANGED <<svc, n, queue, targets, cl, buf, stops>>
Read(c) == /\ buf[c] # <<>> /\ cl[c].st \in {"on", "ended"}
           /\ Assert(NextOk(cl[c], Head(buf[c])), "a frame is lost, repeated or out of order")
           /\ cl' = [cl EXCEPT ![c].last = Head(buf[c])] /\ buf' = [buf EXCEPT ![c] = Tail(@)]
           /\ UNCHANGED <<svc, n, queue, cur, targets, stops>>
Leave(c) == /\ cl[c].st = "on" /\ cl' = [cl EXCEPT ![c].st = "left"] /\ buf' = [buf EXCEPT ![c] = <<>>]
            /\ UNCHANGED <<svc, n, queue, cur, targets, stops>>
Stop == svc = "up" /\ stops < MaxStops /\ svc' = "stopping" /\ stops' = stops + 1 /\ UNCHANGED <<n, queue, cur, targets, cl, buf>>
End(c) == /\ svc = "stopping" /\ cl[c].st \in {"on", "left"}
          /\ cl' = [cl EXCEPT ![c].st = IF @ = "left" THEN "off" ELSE "ended"] /\ UNCHANGED <<svc, n, queue, cur, targets, buf, stops>>
Stopped == svc = "stopping" /\ (\A c \in Clients : cl[c].st \in {"off", "ended", "conn"}) /\ svc' = "down"
           /\ UNCHANGED <<n, queue, cur, targets, cl, buf, stops>>
Start == svc = "down" /\ svc' = "up" /\ UNCHANGED <<n, queue, cur, targets, cl, buf, stops>>
Again(c) == cl[c].st = "ended" /\ buf[c] = <<>> /\ cl' = [cl EXCEPT ![c] = NoConn] /\ UNCHANGED <<svc, n, queue, cur, targets, buf, stops>>
Next == Send \/ Take \/ Done \/ Stop \/ Stopped \/ Start
        \/ \E c \in Clients : Connect(c) \/ Accept(c) \/ Write(c) \/ Read(c) \/ Leave(c) \/ End(c) \/ Again(c)
Spec == Init /\ [][Next]_vars
Quiet == queue = <<>> /\ cur = 0 /\ \A c \in Clients : buf[c] = <<>>
Delivered == Quiet => \A c \in Clients : cl[c].st = "on" => Complete(cl[c], n)
Ended == svc = "down" => \A c \in Clients : cl[c].st # "on"
=============================================================================
