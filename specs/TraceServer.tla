---------------------------- MODULE TraceServer -----------------------------
(* Recorded histories of a telemetry server.                               *)
EXTENDS Server, TraceBase
VARIABLES tid, l, conf, d, phase, frozen
vars == <<tid, l, conf, d, phase, frozen>>
T == Traces[tid]
E == T.ev[l]
ToSet(s) == {s[i] : i \in 1..Len(s)}
Listed == conf \cap Services
Seen == [x \in {E.states[i][1] : i \in 1..Len(E.states)} |-> (CHOOSE i \in 1..Len(E.states) : E.states[i][1] = x)]
StateOf(x) == E.states[Seen[x]][2]
Mine == {x \in Daemons : d[x] # "none"}
Want == IF phase \in {"stopping", "down"} THEN "no" ELSE Answers(d, conf, frozen, E.s)
Name(s) == CASE s = "http" -> "the http service" [] s = "wscmd" -> "the websocket command service" [] s = "wstlm" -> "the websocket telemetry service"
             [] s = "tcp" -> "the tcp telemetry service" [] s = "udp" -> "the udp output" [] OTHER -> "the application"
Why == CASE E.op = "start" -> IF phase = "new" THEN "" ELSE "harness"
         [] E.op = "started" -> IF E.ok THEN "" ELSE "the server doesn't start"
         [] E.op = "reg" -> IF ToSet(E.names) # Listed
                            THEN (IF ToSet(E.names) \subseteq Listed THEN "a service isn't listed in the registry" ELSE "a service is listed that isn't configured")
                            ELSE IF E.ok THEN "" ELSE "a service is listed with no or a wrong address"
         [] E.op = "states" -> IF {x : x \in DOMAIN Seen} \cup {"http"} # Mine \cup {"http"} THEN "other daemons exist than configured"
                               ELSE IF \E x \in DOMAIN Seen : x \in Mine /\ StateOf(x) # d[x]
                                    THEN (IF phase \in {"stopping", "down"} THEN "a daemon outlives its server" ELSE "a daemon isn't in the state that was asked for")
                               ELSE IF "http" \notin Mine /\ StateOf("http") # "idle" THEN "a disabled service runs" ELSE ""
         [] E.op = "cmd" -> IF E.ok THEN "" ELSE "an operation on a daemon fails"
         [] E.op = "scale" -> IF E.ok THEN "" ELSE "the speed of time can't be changed"
         [] E.op = "app" -> IF E.ok = (d["app"] = "none") THEN "" ELSE IF E.ok THEN "an application is registered twice" ELSE "an application can't be registered"
         [] E.op = "setups" -> IF E.n <= 1 THEN "" ELSE "an application is set up more than once"
         [] E.op = "req" -> IF E.status = Status(E.id, E.way) THEN ""
                            ELSE IF E.status = 0 THEN (IF phase # "up" THEN "" ELSE "a request isn't answered")
                            ELSE IF E.id = Right THEN "a request with the right identifier is refused" ELSE "a request with a wrong identifier is accepted"
         [] E.op = "over" -> ""
         [] E.op = "alive" -> IF E.ended = (phase \in {"stopping", "down"}) THEN "" ELSE IF E.ended THEN "the server ends without a reason" ELSE "the server doesn't end"
         [] E.op = "expired" -> IF E.early THEN "the server ends before its run time has expired" ELSE ""
         [] E.op = "code" -> IF E.ok THEN "" ELSE "the application fails"
         [] E.op = "probe" -> IF Want = "any" \/ E.got = (Want = "yes") THEN "" ELSE Name(E.s) \o (IF E.got THEN " answers, but it shouldn't" ELSE " doesn't answer")
         [] E.op = "after" -> IF ~E.free THEN "an address is still in use" ELSE IF E.threads > 0 THEN "threads of the server don't end" ELSE ""
         [] E.op = "end" -> ""
         [] OTHER -> "unexpected event: " \o E.op \o (IF "what" \in DOMAIN E THEN " " \o E.what ELSE "")
Effect ==
  /\ conf' = IF E.op = "app" THEN conf \cup {"app"} ELSE conf
  /\ d' = CASE E.op = "start" -> Started(d)
            [] E.op = "cmd" -> [d EXCEPT ![E.d] = After(@, E.o)]
            [] E.op = "app" -> [d EXCEPT !["app"] = IF @ = "none" THEN (IF phase = "new" THEN "idle" ELSE "running") ELSE @]
            [] E.op = "over" -> Ended(d)
            [] OTHER -> d
  /\ phase' = CASE E.op = "start" -> "starting" [] E.op = "started" /\ phase = "starting" -> "up" [] E.op = "over" -> "stopping"
                [] E.op = "after" -> "down" [] OTHER -> phase
  /\ frozen' = IF E.op = "scale" THEN E.d = "off" ELSE frozen
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ conf = ToSet(Traces[tid].cfg.conf) /\ d = New(conf) /\ phase = "new" /\ frozen = FALSE
Next == /\ l <= Len(T.ev)
        /\ LET w == Why IN
           IF w = "" THEN /\ l' = l + 1 /\ UNCHANGED tid /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, w>>) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
