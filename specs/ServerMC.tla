------------------------------ MODULE ServerMC ------------------------------
(* Shutdown while daemons are in any state: a stop only succeeds for those *)
(* that run, so paused ones are resumed and starting ones awaited.  Two    *)
(* threads may shut the server down at the same time.                      *)
EXTENDS Server, TLC
CONSTANTS Confs, Threads, MaxOps, Retry
VARIABLES conf, d, phase, pc, todo, asked, ops, addr, ids
vars == <<conf, d, phase, pc, todo, asked, ops, addr, ids>>
Mine == {x \in Daemons : d[x] # "none"}
Init == /\ conf \in Confs /\ d = New(conf) /\ phase = "new" /\ pc = [t \in Threads |-> "idle"] /\ todo = [t \in Threads |-> {}]
        /\ asked = FALSE /\ ops = 0 /\ addr = {} /\ ids = 0
Begin == /\ phase = "new" /\ phase' = "up" /\ d' = [x \in Daemons |-> IF d[x] = "idle" THEN "starting" ELSE d[x]]
         /\ addr' = conf \cap Services /\ UNCHANGED <<conf, pc, todo, asked, ops, ids>>
Runs(x) == d[x] = "starting" /\ d' = [d EXCEPT ![x] = "running"] /\ UNCHANGED <<conf, phase, pc, todo, asked, ops, addr, ids>>
Operate(x, o) == /\ phase = "up" /\ ops < MaxOps /\ x \in {"time", "stream", "command", "tcp"} /\ d[x] \in {"running", "paused", "idle"} /\ ~asked
                 /\ d' = [d EXCEPT ![x] = After(@, o)] /\ ops' = ops + 1 /\ UNCHANGED <<conf, phase, pc, todo, asked, addr, ids>>
(* a request, the expiry of the run time or an interrupt, even while the server starts *)
Request(t, id, way) == /\ phase = "up" /\ ids < 2 /\ ids' = ids + 1 /\ d["http"] = "running" /\ pc[t] = "idle"
                       /\ IF Shuts(id, way) THEN pc' = [pc EXCEPT ![t] = "lock"] /\ asked' = TRUE ELSE UNCHANGED <<pc, asked>>
                       /\ UNCHANGED <<conf, d, phase, todo, ops, addr>>
Expire(t) == phase = "up" /\ pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "lock"] /\ asked' = TRUE /\ UNCHANGED <<conf, d, phase, todo, ops, addr, ids>>
Lock(t) == /\ pc[t] = "lock" /\ (\A u \in Threads : pc[u] # "stop") /\ pc' = [pc EXCEPT ![t] = "stop"] /\ todo' = [todo EXCEPT ![t] = Mine]
           /\ UNCHANGED <<conf, d, phase, asked, ops, addr, ids>>
Halt(t, x) == /\ pc[t] = "stop" /\ x \in todo[t]
              /\ IF d[x] \in {"running", "idle"} THEN d' = [d EXCEPT ![x] = "idle"] /\ todo' = [todo EXCEPT ![t] = @ \ {x}]
                 ELSE IF Retry THEN d' = [d EXCEPT ![x] = IF @ = "paused" THEN "running" ELSE @] /\ UNCHANGED todo
                 ELSE UNCHANGED d /\ todo' = [todo EXCEPT ![t] = @ \ {x}]
              /\ UNCHANGED <<conf, phase, pc, asked, ops, addr, ids>>
Finish(t) == /\ pc[t] = "stop" /\ todo[t] = {} /\ pc' = [pc EXCEPT ![t] = "idle"] /\ phase' = "down" /\ addr' = {}
             /\ UNCHANGED <<conf, d, todo, asked, ops, ids>>
Over == phase = "down" /\ UNCHANGED vars
Next == Begin \/ Over \/ (\E x \in Daemons : Runs(x) \/ \E o \in {"pause", "unpause", "stop", "start"} : Operate(x, o))
        \/ \E t \in Threads : Expire(t) \/ Lock(t) \/ Finish(t) \/ (\E x \in Daemons : Halt(t, x))
                              \/ \E id \in {"right", "other", "none"}, way \in Ways : Request(t, id, way)
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Next) /\ (\A t \in Threads : WF_vars(Lock(t)) /\ WF_vars(Finish(t)) /\ \A x \in Daemons : WF_vars(Halt(t, x)))
             /\ \A x \in Daemons : WF_vars(Runs(x))
(* no daemon of a server that was shut down runs; only a reason shuts it down; nothing runs that was not configured *)
Down == phase = "down" => \A x \in Mine : d[x] = "idle"
Reason == (phase = "down" \/ \E t \in Threads : pc[t] # "idle") => asked
Asked == Mine = Configured(conf) /\ addr \subseteq conf
Comes == asked ~> phase = "down"
=============================================================================
