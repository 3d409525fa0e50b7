--------------------------- MODULE TracePeriodic ---------------------------
(* cfg.exact: the schedule is the natural one, times are judged.           *)
(* cfg.clock: "kept" - the daemon's clock is set by tick events; "real" -   *)
(* it is the real clock; "none" - it stands still (no keeper).             *)
EXTENDS Periodic, TraceBase
VARIABLES tid, l, st, time, rate, held, scale, task, prev, late, since, tally, calls
(* held: the periods in effect since the last call ended: when another    *)
(* thread changes it meanwhile, either may be the one a call goes by.      *)
(* task: the call in progress <<[now, t, rate]>>; prev: the call before    *)
(* <<[due, t, rate]>>; late: latest instant for the next call; since: calls *)
(* begun since the pause; tally: [overruns (at least, at most), up, cycle, pend, poll];        *)
(* calls: thread -> [what, stale]                                          *)
T == Traces[tid]
E == T.ev[l]
Threads == 1..T.cfg.threads
Exact == T.cfg.exact
None == [what |-> "", stale |-> FALSE]
clock == IF T.cfg.clock = "real" THEN E.now ELSE time
scl == IF T.cfg.clock = "real" THEN [n |-> 1, d |-> 1] ELSE scale
c == calls[E.t]
Waking == {"start", "restart", "unpause"}
(* a running daemon may not miss the instant its next call is due *)
Missed == Exact /\ st = "running" /\ task = <<>> /\ prev # <<>> /\ E.now > late
Should(what, was) == CASE what = "start" -> was = "idle" [] what = "stop" -> was = "running"
                       [] what = "pause" -> was = "running" [] what = "unpause" -> was = "paused" [] OTHER -> was = "running"
Why ==
  CASE E.op \in {"hang", "crash"} -> "unexpected event: " \o E.op
    [] E.op # "end" /\ Missed -> "a call that was due was not made"
    [] E.op = "tick" -> ""
    [] E.op = "begin" -> IF task # <<>> THEN "two calls at a time"
                         ELSE IF tally.pend = "must" THEN "an overrun was not reported"
                         ELSE IF st = "idle" THEN "a call while stopped"
                         ELSE IF st = "paused" /\ (Exact \/ since > 0) THEN "a call while paused"
                         ELSE IF Exact /\ st = "stopping" THEN "a call while stopping"
                         ELSE IF Exact /\ (prev = <<>> \/ E.now < prev[1].due) THEN "a call before its time" ELSE ""
    [] E.op = "finish" -> IF task = <<>> THEN "harness" ELSE ""
    [] E.op = "overrun" -> IF tally.pend = "no" THEN "an overrun is reported twice or without reason"
                           ELSE IF E.rate \notin prev[1].rates \/ E.start # prev[1].t \/ E.stop # clock THEN "an overrun is described wrongly" ELSE ""
    [] E.op = "metrics" -> IF E.overruns \notin tally.least..tally.most \/ E.choverruns # E.overruns THEN "the overrun count is wrong"
                           ELSE IF E.up # tally.up \/ E.chup # tally.up THEN "the run time is wrong"
                           ELSE IF tally.cycle >= 0 /\ E.cycle >= 0 /\ E.cycle # tally.cycle THEN "the cycle time is wrong" ELSE ""
    [] E.op = "call" -> IF c.what # "" THEN "harness" ELSE ""
    [] E.op = "ret" -> IF Exact /\ E.ok # Should(c.what, E.was) THEN "an operation failed or succeeded wrongly" ELSE ""
    [] E.op = "rate" -> IF E.got # (IF E.x > 0 THEN E.x ELSE rate) THEN "the period was not set" ELSE ""
    [] E.op = "scale" -> ""
    [] E.op = "end" -> IF \E t \in Threads : calls[t].what # "" THEN "an operation never returned" ELSE ""
    [] OTHER -> "unexpected event: " \o E.op
Polled(r, s) == [tally EXCEPT !.poll = Max(@, Real(r, IF T.cfg.clock = "real" THEN [n |-> 1, d |-> 1] ELSE s))]
Began == E.what \in {"start", "restart"} /\ Should(E.what, E.was)
Effect ==
  CASE E.op = "tick" -> time' = E.v /\ UNCHANGED <<st, rate, scale, task, prev, late, since, tally, calls, held>>
    [] E.op = "begin" -> /\ task' = <<[now |-> E.now, t |-> clock, rate |-> rate]>> /\ since' = since + 1
                         /\ held' = IF Exact THEN {rate} ELSE held
                         /\ UNCHANGED <<st, time, rate, scale, prev, late, tally, calls>>
    [] E.op = "finish" ->
         LET tk == task[1]
             rates == IF Exact THEN {tk.rate} ELSE held
             must == T.cfg.clock # "none" /\ \A x \in rates : Overrun(x, tk.t, clock)
             may == T.cfg.clock # "none" /\ \E x \in rates : Overrun(x, tk.t, clock)
             due == IF T.cfg.clock = "none" THEN Max(E.now, tk.now + tk.rate) ELSE Due(E.now, tk.rate, tk.t, clock, scl)
         IN /\ task' = <<>>
            /\ prev' = <<[due |-> due, t |-> tk.t, rates |-> rates]>> /\ held' = {rate}
            (* without a clock of its own a daemon can't tell how long its task took *)
            /\ late' = IF T.cfg.clock = "none" THEN E.now + tk.rate ELSE due
            /\ tally' = [tally EXCEPT !.least = @ + (IF must THEN 1 ELSE 0), !.most = @ + (IF may THEN 1 ELSE 0), !.up = @ + (clock - tk.t), !.cycle = clock - tk.t,
                                      !.pend = IF ~T.cfg.watched \/ ~may THEN "no" ELSE IF must THEN "must" ELSE "may"]
            /\ UNCHANGED <<st, time, rate, scale, since, calls>>
    [] E.op = "overrun" -> /\ tally' = [tally EXCEPT !.pend = "no", !.least = @ + (IF tally.pend = "may" THEN 1 ELSE 0)]
                           /\ UNCHANGED <<st, time, rate, scale, task, prev, late, since, calls, held>>
    [] E.op = "rate" -> rate' = E.got /\ held' = held \cup {E.got} /\ tally' = Polled(E.got, scale) /\ UNCHANGED <<st, time, scale, task, prev, late, since, calls>>
    [] E.op = "scale" -> /\ scale' = [n |-> E.n, d |-> E.d] /\ tally' = Polled(rate, scale')
                         /\ UNCHANGED <<st, time, rate, task, prev, late, since, calls, held>>
    [] E.op = "call" ->
         /\ calls' = [t \in Threads |-> IF t = E.t THEN [what |-> E.what, stale |-> FALSE]
                                        ELSE IF E.what \in Waking THEN [calls[t] EXCEPT !.stale = TRUE] ELSE calls[t]]
         (* in the exact runs a request takes effect when it is made; else a call may begin before start returns *)
         /\ st' = CASE E.what \in Waking /\ (~Exact \/ Should(E.what, E.was)) -> "running"
                    [] Exact /\ E.what = "stop" /\ E.was = "running" -> "stopping"
                    [] Exact /\ E.what = "pause" /\ E.was = "running" -> "paused"
                    [] OTHER -> st
         /\ since' = IF Exact /\ E.what = "pause" THEN 0 ELSE since
         /\ prev' = IF Exact /\ Began THEN (IF prev = <<>> THEN <<[due |-> E.now, t |-> 0, rates |-> {}]>> ELSE [prev EXCEPT ![1].due = IF E.what = "restart" THEN @ ELSE E.now])
                    ELSE prev
         /\ late' = IF Exact /\ Began /\ E.what = "start" THEN E.now
                    ELSE IF Exact /\ E.what = "unpause" /\ E.was = "paused" THEN Max(late, E.now + tally.poll) ELSE late
         /\ tally' = IF E.what = "pause" THEN [tally EXCEPT !.poll = Real(rate, scl)] ELSE tally
         /\ UNCHANGED <<time, rate, scale, task, held>>
    [] E.op = "ret" ->
         /\ calls' = [calls EXCEPT ![E.t] = None]
         /\ LET quiet == ~c.stale /\ \A t \in Threads \ {E.t} : calls[t].what \notin Waking
            IN /\ st' = CASE c.what = "stop" /\ E.ok /\ quiet -> "idle"
                          [] ~Exact /\ c.what = "pause" /\ E.ok /\ quiet -> "paused"
                          [] OTHER -> st
               /\ since' = IF ~Exact /\ c.what = "pause" THEN 0 ELSE since
         /\ UNCHANGED <<time, rate, scale, task, prev, late, tally, held>>
    [] OTHER -> UNCHANGED <<st, time, rate, scale, task, prev, late, since, tally, calls, held>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ st = "idle" /\ time = Traces[tid].cfg.time /\ rate = Traces[tid].cfg.rate /\ held = {rate}
        /\ scale = [n |-> 1, d |-> 1] /\ task = <<>> /\ prev = <<>> /\ late = 0 /\ since = 0
        /\ tally = [least |-> 0, most |-> 0, up |-> 0, cycle |-> -1, pend |-> "no", poll |-> 0]
        /\ calls = [t \in 1..Traces[tid].cfg.threads |-> None]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, st, time, rate, held, scale, task, prev, late, since, tally, calls>>
=============================================================================
