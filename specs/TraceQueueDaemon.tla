-------------------------- MODULE TraceQueueDaemon --------------------------
EXTENDS QueueDaemon, TraceBase
VARIABLES tid, l, before, entered, handled, finished, cur, may, calls
(* may: may the handler run (a start was requested, no later stop returned) *)
(* calls: thread -> [what, owed, empty]                                     *)
T == Traces[tid]
E == T.ev[l]
Threads == 1..T.cfg.threads
None == [what |-> "", owed |-> {}, taken |-> 0, stale |-> FALSE]
c == calls[E.t]
Why == CASE E.op = "put" -> IF E.x \in DOMAIN before THEN "harness" ELSE ""
         [] E.op = "putdone" -> ""
         [] E.op = "call" -> IF c.what # "" THEN "harness" ELSE ""
         [] E.op = "begin" -> IF cur # <<>> THEN "two elements are handled at a time"
                              ELSE IF ~may THEN "an element is handled while stopped"
                              ELSE IF E.x \in handled THEN "an element is handled twice"
                              ELSE IF ~InTurn(before, handled, E.x) THEN "elements are handled out of order" ELSE ""
         [] E.op = "done" -> IF cur # <<E.x>> THEN "harness" ELSE ""
         [] E.op = "ret" -> IF c.what \in {"stop", "restart"} /\ E.ok /\ ~(c.owed \subseteq finished)
                               THEN "a stop returned before everything queued was handled"
                            ELSE IF c.what = "await" /\ ~(c.owed \subseteq handled) THEN "the queue was reported empty" ELSE ""
         [] E.op = "drained" -> IF DOMAIN before # finished THEN "elements were not handled in the end" ELSE ""
         [] E.op = "end" -> IF \E t \in Threads : calls[t].what # "" THEN "an operation never returned" ELSE ""
         [] OTHER -> "unexpected event: " \o E.op
Starts == c.what \in {"start", "restart"} /\ E.ok
Effect ==
  CASE E.op = "put" -> /\ before' = [x \in DOMAIN before \cup {E.x} |-> IF x \in DOMAIN before THEN before[x] ELSE entered]
                       /\ UNCHANGED <<entered, handled, finished, cur, may, calls>>
    [] E.op = "putdone" -> entered' = entered \cup {E.x} /\ UNCHANGED <<before, handled, finished, cur, may, calls>>
    [] E.op = "begin" -> handled' = handled \cup {E.x} /\ cur' = <<E.x>> /\ UNCHANGED <<before, entered, finished, may, calls>>
    [] E.op = "done" -> finished' = finished \cup {E.x} /\ cur' = <<>> /\ UNCHANGED <<before, entered, handled, may, calls>>
    (* a start is requested: the handler may run, and stops requested earlier say nothing about it *)
    [] E.op = "call" -> /\ may' = (may \/ E.what \in {"start", "restart"})
                        /\ calls' = [t \in Threads |-> IF t = E.t THEN [what |-> E.what, owed |-> entered, taken |-> 0, stale |-> FALSE]
                                                       ELSE IF E.what \in {"start", "restart"} THEN [calls[t] EXCEPT !.stale = TRUE] ELSE calls[t]]
                        /\ UNCHANGED <<before, entered, handled, finished, cur>>
    [] E.op = "ret" -> /\ may' = IF c.what = "stop" /\ E.ok /\ ~c.stale /\ ~\E t \in Threads \ {E.t} : calls[t].what \in {"start", "restart"}
                                 THEN FALSE ELSE may
                       /\ calls' = [calls EXCEPT ![E.t] = None]
                       /\ UNCHANGED <<before, entered, handled, finished, cur>>
    [] OTHER -> UNCHANGED <<before, entered, handled, finished, cur, may, calls>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ before = <<>> /\ entered = {} /\ handled = {} /\ finished = {} /\ cur = <<>> /\ may = FALSE
        /\ calls = [t \in 1..Traces[tid].cfg.threads |-> None]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, before, entered, handled, finished, cur, may, calls>>
=============================================================================
