----------------------------- MODULE TraceDaemon -----------------------------
EXTENDS Daemon, TraceBase
VARIABLES tid, l, st, runs, ended, inbody, begun, pend, counts, arg
T == Traces[tid]
E == T.ev[l]
Clients == 1..T.cfg.threads
Idle == [what |-> "", byname |-> FALSE, seen |-> {}, since |-> {}, k |-> 0, target |-> 0, arg |-> 0]
p == pend[E.t]
Partial == p.k > 0 /\ p.k < Len(Plan(p.what))
(* the state is set just before the change is reported: a change that is   *)
(* reported next may be visible already                                    *)
Coming == LET later == {i \in (l + 1)..Len(T.ev) : T.ev[i].op = "move"} IN
          IF later = {} THEN {} ELSE LET i == CHOOSE i \in later : \A j \in later : i <= j IN
            IF T.ev[i].t = 0 \/ (T.ev[i].t # E.t /\ pend[T.ev[i].t].what # "") THEN {T.ev[i].b} ELSE {}
(* may the next move of a pending operation be this one *)
MoveWhy == IF E.a # st THEN "a state change that doesn't start from the state before"
           ELSE IF E.t = 0 THEN
             (IF ~RunMove(E.a, E.b) THEN "the daemon's thread made an illegal transition"
              ELSE IF E.b = "idle" /\ inbody THEN "idle while its task runs"
              ELSE IF E.b = "idle" /\ st # "stopping" /\ ~T.cfg.ends THEN "a service ended without being stopped"
              ELSE IF E.b = "idle" /\ begun < runs /\ T.cfg.body THEN "idle without having run its task" ELSE "")
           ELSE IF p.what = "" THEN "a state change that nobody requested"
           ELSE IF p.k >= Len(Plan(p.what)) THEN "more state changes than the operation makes"
           ELSE LET o == Plan(p.what)[p.k + 1] IN
             IF E.a # OpFrom(o) \/ E.b # OpTo(o) THEN "not the state change of the requested operation"
             ELSE IF o = "start" /\ p.k = 1 /\ ended < p.target THEN "restarted before it had stopped" ELSE ""
RetWhy == LET n == Len(Plan(p.what))  honoured == p.k = n /\ n > 0
              refusal == CASE p.what = "start" -> p.seen # {"idle"}
                           [] p.what \in {"stop", "pause"} -> p.seen # {"running"}
                           [] p.what = "unpause" -> p.seen # {"paused"}
                           [] p.what = "restart" -> IF p.k = 0 THEN p.seen # {"running"} ELSE p.since # {"idle"}
                           [] OTHER -> TRUE
          IN IF E.ok /\ honoured THEN
                (IF p.what = "stop" /\ ended < p.target THEN "a successful stop returned before the task had ended" ELSE "")
             ELSE IF E.ok THEN
                (IF ~p.byname THEN "success reported without effect"
                 ELSE IF p.k = 0 /\ (p.seen \cup Coming) \cap Skipped(p.what) # {} THEN "" ELSE "skipped in a state where it applies")
             ELSE IF honoured THEN "failure reported for an operation that was carried out"
             ELSE IF ~refusal THEN "refused although it applies"
             ELSE ""
Why == CASE E.op = "call" -> IF p.what # "" THEN "harness" ELSE ""
         [] E.op = "move" -> MoveWhy
         [] E.op = "begin" -> IF inbody THEN "the task runs twice at a time"
                              ELSE IF st \notin {"running", "paused", "stopping"} THEN "the task runs in state " \o st
                              ELSE IF begun >= runs THEN "the task runs more often than it was started"
                              ELSE IF E.arg # arg THEN "the task doesn't get the arguments of its start" ELSE ""
         [] E.op = "leave" -> IF ~inbody THEN "harness" ELSE ""
         [] E.op = "ret" -> RetWhy
         [] E.op = "state" -> IF E.got = st \/ RunMove(st, E.got) \/ \E o \in Operations : st = OpFrom(o) /\ E.got = OpTo(o)
                              THEN "" ELSE "the visible state is " \o E.got
         [] E.op = "final" -> IF E.got # st \/ E.text # st THEN "the visible state at the end"
                              ELSE IF E.published # "" /\ E.published # st THEN "the published state at the end"
                              ELSE IF T.cfg.counters /\ E.counters # counts THEN "a published counter differs from what happened"
                              ELSE IF T.cfg.counters /\ E.channels # E.counters THEN "a counter's channel differs from the counter" ELSE ""
         [] E.op = "service" -> IF E.ok = (st \in {"running", "paused"}) THEN "" ELSE "the service answers although stopped, or doesn't while running"
         [] E.op = "end" -> IF T.cfg.idle /\ st # "idle" THEN "not idle after the last stop"
                            ELSE IF \E t \in Clients : pend[t].what # "" THEN "an operation never returned" ELSE ""
         [] OTHER -> "unexpected event: " \o E.op
See(q) == [t \in Clients |-> IF q[t].what = "" THEN q[t] ELSE [q[t] EXCEPT !.seen = @ \cup {E.b}, !.since = @ \cup {E.b}]]
Effect ==
  CASE E.op = "call" -> /\ pend' = [pend EXCEPT ![E.t] = [what |-> E.what, byname |-> E.byname, seen |-> {st}, since |-> {st}, k |-> 0, target |-> 0, arg |-> E.arg]]
                        /\ UNCHANGED <<st, runs, ended, inbody, begun, counts, arg>>
    [] E.op = "ret" -> pend' = [pend EXCEPT ![E.t] = Idle] /\ UNCHANGED <<st, runs, ended, inbody, begun, arg>>
                       /\ counts' = IF E.ok /\ p.what = "stop" /\ p.k = 1 THEN [counts EXCEPT !.stops = @ + 1]
                                    ELSE IF p.what = "restart" /\ p.k >= 1 THEN [counts EXCEPT !.stops = @ + 1] ELSE counts
    [] E.op = "move" ->
         LET q == See(pend)
             q2 == IF E.t = 0 THEN q
                   ELSE [q EXCEPT ![E.t].k = @ + 1, ![E.t].target = IF E.b = "stopping" THEN runs ELSE @]
             (* what a restart saw after its stop *)
             q3 == [t \in Clients |-> IF E.t = 0 /\ E.b = "idle" /\ q2[t].what = "restart" /\ q2[t].k = 1 /\ ended + 1 = q2[t].target
                                      THEN [q2[t] EXCEPT !.since = {"idle"}] ELSE q2[t]]
         IN /\ st' = E.b /\ pend' = q3
            /\ runs' = IF E.b = "starting" THEN runs + 1 ELSE runs
            /\ ended' = IF E.b = "idle" THEN ended + 1 ELSE ended
            /\ counts' = CASE E.b = "starting" -> [counts EXCEPT !.starts = @ + 1, !.count = 0]
                           [] E.b = "paused" -> [counts EXCEPT !.pauses = @ + 1]
                           [] E.b = "running" /\ E.a = "paused" -> [counts EXCEPT !.unpauses = @ + 1]
                           [] E.b = "idle" -> [counts EXCEPT !.count = @ + 1]
                           [] OTHER -> counts
            /\ arg' = IF E.b = "starting" THEN q[E.t].arg ELSE arg
            /\ UNCHANGED <<inbody, begun>>
    [] E.op = "begin" -> inbody' = TRUE /\ begun' = begun + 1 /\ UNCHANGED <<st, runs, ended, pend, counts, arg>>
    [] E.op = "leave" -> inbody' = FALSE /\ UNCHANGED <<st, runs, ended, pend, begun, counts, arg>>
    [] OTHER -> UNCHANGED <<st, runs, ended, inbody, begun, pend, counts, arg>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ st = "idle" /\ runs = 0 /\ ended = 0 /\ inbody = FALSE /\ begun = 0 /\ arg = 0
        /\ pend = [t \in 1..Traces[tid].cfg.threads |-> Idle]
        /\ counts = [starts |-> 0, stops |-> 0, pauses |-> 0, unpauses |-> 0, count |-> 0, errors |-> 0]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, st, runs, ended, inbody, begun, pend, counts, arg>>
=============================================================================
