------------------------------ MODULE TraceNet ------------------------------
(* Recorded histories of the telemetry services and their clients.  An     *)
(* event of a client that reads may be noted a little after the event that *)
(* caused it, never before.  settle: nothing more arrives.                 *)
EXTENDS Net, TraceBase
VARIABLES tid, l, n, base, svc, cl
T == Traces[tid]
E == T.ev[l]
Clients == 1..T.cfg.clients
c == cl[E.c]
Alive == {"conn", "on"}
(* connections the service may still know of: it notices that a tcp client has gone when it writes to it *)
Of(k, sts) == Cardinality({x \in Clients : cl[x].kind = k /\ cl[x].st \in sts})
Leaving(k) == Cardinality({x \in Clients : cl[x].kind = k /\ ((cl[x].st = "left" /\ cl[x].gone < 2) \/ (cl[x].stalled /\ cl[x].st \in {"on", "ended"}))})
Gauge(k, v) == v >= Of(k, {"on"}) - Leaving(k) /\ v <= Of(k, {"on"}) + Leaving(k)
Why == CASE E.op = "start" -> ""
         [] E.op = "started" -> IF E.ok THEN "" ELSE "the service can't be started again"
         [] E.op = "stop" -> ""
         [] E.op = "stopped" -> IF E.ok THEN "" ELSE "the service can't be stopped"
         [] E.op = "conn" -> IF c.st # "off" THEN "harness" ELSE ""
         [] E.op = "reg" -> IF E.ok \/ c.st = "ended" THEN "" ELSE "a connection isn't served"
         [] E.op = "send" -> IF E.i = n + 1 THEN "" ELSE "harness"
         [] E.op = "recv" -> IF E.i = 0 THEN "a frame arrives that was not sent, or altered"
                             ELSE IF c.st = "off" THEN "harness"
                             ELSE IF E.i > n THEN "a frame arrives before it is sent"
                             ELSE IF NextOk(c, E.i) THEN ""
                             ELSE IF c.last = 0 THEN (IF E.i < c.low THEN "a frame from before the connection arrives" ELSE "frames after the connection are missing")
                             ELSE IF E.i <= c.last THEN "a frame arrives twice or out of order" ELSE "a frame is missing"
         [] E.op = "ended" -> IF c.st = "left" \/ c.stalled \/ svc[c.kind] # "up" THEN ""
                            ELSE "a connection ends without a reason"
         [] E.op = "leave" -> ""
         [] E.op = "left" -> IF E.ok THEN "" ELSE "a client can't be stopped"
         [] E.op = "gone" -> IF E.ok THEN "" ELSE "a connection is kept for ever"
         [] E.op = "stall" -> ""
         [] E.op = "settle" ->
              IF \E x \in Clients : cl[x].st = "on" /\ svc[cl[x].kind] = "down" THEN "a connection outlives its service"
              ELSE IF \E x \in Clients : cl[x].st = "on" /\ ~cl[x].stalled /\ ~Complete(cl[x], n) THEN "a frame isn't delivered"
              ELSE IF E.gauge /\ ~Gauge("tcp", E.tcp) THEN "the reported number of tcp clients is wrong"
              ELSE IF E.gauge /\ ~Gauge("tcp", E.streams) THEN "a stream isn't released, or lost"
              ELSE IF E.gauge /\ ~Gauge("ws", E.queues) THEN "a queue isn't released, or lost" ELSE ""
         [] E.op = "leaks" -> IF E.fds > 0 THEN "connections aren't released" ELSE IF E.threads > 0 THEN "threads aren't released" ELSE ""
         [] E.op = "end" -> ""
         [] OTHER -> "unexpected event: " \o E.op \o (IF "what" \in DOMAIN E THEN " " \o E.what ELSE "")
Upd(f, k, v) == [f EXCEPT ![k] = v]
Effect ==
  /\ n' = IF E.op = "send" THEN E.i ELSE n
  /\ base' = IF E.op = "settle" THEN n ELSE base
  /\ svc' = CASE E.op = "start" -> Upd(svc, E.k, "up") [] E.op = "stop" -> Upd(svc, E.k, "stopping")
              [] E.op = "stopped" -> Upd(svc, E.k, "down") [] OTHER -> svc
  /\ cl' = CASE E.op = "conn" -> Upd(cl, E.c, Connecting(E.k, base))
             [] E.op = "reg" -> Upd(cl, E.c, Accepted(c, n))
             [] E.op = "recv" -> Upd(cl, E.c, [c EXCEPT !.last = E.i, !.st = IF @ = "conn" THEN "on" ELSE @])
             [] E.op = "ended" -> Upd(cl, E.c, [c EXCEPT !.st = IF @ = "left" THEN "left" ELSE "ended"])
             [] E.op = "leave" -> Upd(cl, E.c, [c EXCEPT !.st = IF @ = "ended" THEN @ ELSE "left"])
             [] E.op = "stall" -> Upd(cl, E.c, [c EXCEPT !.stalled = TRUE])
             [] E.op = "settle" -> [x \in Clients |-> IF n > base /\ cl[x].st = "left" THEN [cl[x] EXCEPT !.gone = @ + 1] ELSE cl[x]]
             [] OTHER -> cl
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ n = 0 /\ base = 0 /\ svc = [k \in Kinds |-> "down"]
        /\ cl = [x \in Clients |-> NoConn]
Next == /\ l <= Len(T.ev)
        /\ IF Why = "" THEN /\ Effect /\ l' = l + 1 /\ tid' = tid
                            /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, n, base, svc, cl>>
=============================================================================
