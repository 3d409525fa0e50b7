---------------------------- MODULE QueueDaemonMC ----------------------------
(* Producers, requests to start and stop, a marker put behind what is      *)
(* queued, and a thread that ends at the marker.                           *)
EXTENDS QueueDaemon, TLC
CONSTANTS Producers, PerProducer, Cap, MaxOps
VARIABLES q, putpc, before, entered, handled, cur, st, ctl, ops, owed
vars == <<q, putpc, before, entered, handled, cur, st, ctl, ops, owed>>
Marker == <<"stop">>
Elems == Producers \X (1..PerProducer)
Init == /\ q = <<>> /\ putpc = [p \in Producers |-> [n |-> 1, at |-> "rest"]] /\ before = <<>> /\ entered = {} /\ handled = <<>>
        /\ cur = <<>> /\ st = "idle" /\ ctl = "rest" /\ ops = 0 /\ owed = {}
Offer(p) == /\ putpc[p].at = "rest" /\ putpc[p].n <= PerProducer
            /\ putpc' = [putpc EXCEPT ![p].at = "putting"]
            /\ before' = [x \in DOMAIN before \cup {<<p, putpc[p].n>>} |-> IF x \in DOMAIN before THEN before[x] ELSE entered]
            /\ UNCHANGED <<q, entered, handled, cur, st, ctl, ops, owed>>
Enter(p) == LET x == <<p, putpc[p].n>> IN
            /\ putpc[p].at = "putting" /\ Len(q) < Cap
            /\ q' = Append(q, x) /\ entered' = entered \cup {x} /\ putpc' = [putpc EXCEPT ![p] = [n |-> @.n + 1, at |-> "rest"]]
            /\ UNCHANGED <<before, handled, cur, st, ctl, ops, owed>>
Start == /\ ctl = "rest" /\ ops < MaxOps /\ st = "idle" /\ st' = "running" /\ ops' = ops + 1
         /\ UNCHANGED <<q, putpc, before, entered, handled, cur, ctl, owed>>
Stop == /\ ctl = "rest" /\ ops < MaxOps /\ st = "running" /\ st' = "stopping" /\ ctl' = "inject" /\ ops' = ops + 1 /\ owed' = entered
        /\ UNCHANGED <<q, putpc, before, entered, handled, cur>>
Inject == /\ ctl = "inject" /\ Len(q) < Cap /\ q' = Append(q, Marker) /\ ctl' = "join"
          /\ UNCHANGED <<putpc, before, entered, handled, cur, st, ops, owed>>
Joined == /\ ctl = "join" /\ st = "idle" /\ ctl' = "rest"
          /\ UNCHANGED <<q, putpc, before, entered, handled, cur, st, ops, owed>>
Get == /\ st \in {"running", "stopping"} /\ cur = <<>> /\ q # <<>> /\ q' = Tail(q)
       /\ IF Head(q) = Marker THEN st' = "idle" /\ UNCHANGED cur ELSE cur' = <<Head(q)>> /\ UNCHANGED st
       /\ UNCHANGED <<putpc, before, entered, handled, ctl, ops, owed>>
Handle == /\ cur # <<>> /\ handled' = Append(handled, cur[1]) /\ cur' = <<>>
          /\ UNCHANGED <<q, putpc, before, entered, st, ctl, ops, owed>>
Quiet == ops = MaxOps /\ ctl = "rest" /\ UNCHANGED vars
Next == \/ \E p \in Producers : Offer(p) \/ Enter(p)
        \/ Start \/ Stop \/ Inject \/ Joined \/ Get \/ Handle \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(Get) /\ WF_vars(Handle) /\ WF_vars(Inject) /\ WF_vars(Joined)
Once == \A i, j \in 1..Len(handled) : i # j => handled[i] # handled[j]
Fifo == \A i \in 1..Len(handled) : InTurn(before, {handled[j] : j \in 1..(i - 1)}, handled[i])
Drained == [][(ctl = "join" /\ ctl' = "rest") => owed \subseteq Range(handled)]_vars
StillAfter == [][(st = "idle" /\ st' = "idle") => UNCHANGED handled]_vars
StopEnds == (ctl # "rest") ~> (ctl = "rest")
=============================================================================
