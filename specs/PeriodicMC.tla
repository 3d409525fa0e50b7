----------------------------- MODULE PeriodicMC -----------------------------
(* The loop of a periodic daemon in urgent discrete time, with requests to *)
(* pause, resume, stop, start and change the period at any instant, also   *)
(* between the daemon's look at its state and its call.                    *)
EXTENDS Periodic, TLC
CONSTANTS Rates, Durs, MaxT, MaxOps
VARIABLES now, st, pc, wake, rate, used, tb, ends, ops, overruns, calls, since, last, late
vars == <<now, st, pc, wake, rate, used, tb, ends, ops, overruns, calls, since, last, late>>
One == [n |-> 1, d |-> 1]
(* since: calls that have begun since the latest accepted pause; last: the *)
(* previous call [b, f, due], or <<>>; late: the bound after a resumption  *)
Init == /\ now = 0 /\ st = "idle" /\ pc = "off" /\ wake = 0 /\ rate \in Rates /\ used = rate /\ tb = 0 /\ ends = 0 /\ ops = 0
        /\ overruns = 0 /\ calls = 0 /\ since = 0 /\ last = <<>> /\ late = 0
Op == ops < MaxOps /\ ops' = ops + 1
Start == /\ Op /\ st = "idle" /\ st' = "running" /\ pc' = "look" /\ last' = <<>> /\ late' = now
         /\ UNCHANGED <<now, wake, rate, used, tb, ends, overruns, calls, since>>
Pause == /\ Op /\ st = "running" /\ st' = "paused" /\ since' = 0
         /\ UNCHANGED <<now, pc, wake, rate, used, tb, ends, overruns, calls, last, late>>
Unpause == /\ Op /\ st = "paused" /\ st' = "running" /\ late' = Max(late, now + Max(rate, used))
           /\ UNCHANGED <<now, pc, wake, rate, used, tb, ends, overruns, calls, since, last>>
Stop == /\ Op /\ st = "running" /\ st' = "stopping"
        /\ UNCHANGED <<now, pc, wake, rate, used, tb, ends, overruns, calls, since, last, late>>
SetRate == /\ Op /\ rate' \in Rates
           /\ UNCHANGED <<now, st, pc, wake, used, tb, ends, overruns, calls, since, last, late>>
Look == /\ pc = "look"
        /\ used' = rate
        /\ CASE st = "stopping" -> pc' = "off" /\ st' = "idle" /\ UNCHANGED wake
             [] st = "paused" -> pc' = "asleep" /\ wake' = now + rate /\ UNCHANGED st
             [] OTHER -> pc' = "go" /\ UNCHANGED <<st, wake>>
        /\ UNCHANGED <<now, rate, tb, ends, ops, overruns, calls, since, last, late>>
Call == /\ pc = "go" /\ pc' = "task" /\ tb' = now /\ \E d \in Durs : ends' = now + d
        /\ calls' = calls + 1 /\ since' = since + 1
        /\ UNCHANGED <<now, st, wake, rate, used, ops, overruns, last, late>>
Return == /\ pc = "task" /\ now = ends
          /\ overruns' = overruns + IF Overrun(used, tb, now) THEN 1 ELSE 0
          /\ wake' = Due(now, used, tb, now, One) /\ pc' = "asleep"
          /\ last' = <<[b |-> tb, f |-> now, rate |-> used]>> /\ late' = wake'
          /\ UNCHANGED <<now, st, rate, used, tb, ends, ops, calls, since>>
Wake == /\ pc = "asleep" /\ now = wake /\ pc' = "look"
        /\ UNCHANGED <<now, st, wake, rate, used, tb, ends, ops, overruns, calls, since, last, late>>
Urgent == pc \in {"look", "go"} \/ (pc = "task" /\ now = ends) \/ (pc = "asleep" /\ now = wake)
Tick == /\ ~Urgent /\ now < MaxT /\ now' = now + 1
        /\ UNCHANGED <<st, pc, wake, rate, used, tb, ends, ops, overruns, calls, since, last, late>>
Rest == now = MaxT /\ UNCHANGED vars
Next == Start \/ Pause \/ Unpause \/ Stop \/ SetRate \/ Look \/ Call \/ Return \/ Wake \/ Tick \/ Rest
Spec == Init /\ [][Next]_vars
(* one call that was due may still begin *)
Quiet == st = "paused" => since <= 1
NoneWhenStopped == [][calls' # calls => st # "idle"]_vars
OncePerPeriod == [][(calls' # calls /\ last # <<>>) => now >= Max(last[1].b + last[1].rate, last[1].f)]_vars
InTime == (st = "running" /\ pc \in {"asleep", "look", "go"}) => now <= late
OverrunsAreCounted == overruns <= calls
=============================================================================
