------------------------------ MODULE MetricsMC ------------------------------
(* The protocol in small steps: an element is counted before it is put, the *)
(* count is undone when it did not fit, an element is discounted after it   *)
(* was taken; additions to a counter are atomic.  In every schedule of      *)
(* producers and consumers no counter is ever negative, and they are exact  *)
(* when nobody is busy.                                                     *)
EXTENDS Metrics, TLC
CONSTANTS Producers, Consumers, Rounds, Undo
VARIABLES q, cnt, pc, left, put, taken, order
vars == <<q, cnt, pc, left, put, taken, order>>
Threads == Producers \cup Consumers
Add(f, n) == [cnt EXCEPT ![f] = @ + n]
Init == /\ q = <<>> /\ cnt = Counts(0, 0) /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Rounds]
        /\ put = 0 /\ taken = 0 /\ order = <<>>
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Begin(t) == /\ t \in Producers /\ left[t] > 0 /\ Go(t, "idle", "counted") /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ cnt' = Add("elements", 1) /\ UNCHANGED <<q, put, taken, order>>
Total(t) == Go(t, "counted", "ready") /\ cnt' = Add("enqueued", 1) /\ UNCHANGED <<q, left, put, taken, order>>
Put(t) == Fits(q) /\ Go(t, "ready", "idle") /\ q' = PutOk(q, t) /\ put' = put + 1 /\ UNCHANGED <<cnt, left, taken, order>>
Full(t) == ~Fits(q) /\ Go(t, "ready", IF Undo THEN "undo" ELSE "idle") /\ UNCHANGED <<q, cnt, left, put, taken, order>>
Undo1(t) == Go(t, "undo", "undo2") /\ cnt' = Add("elements", -1) /\ UNCHANGED <<q, left, put, taken, order>>
Undo2(t) == Go(t, "undo2", "idle") /\ cnt' = Add("enqueued", -1) /\ UNCHANGED <<q, left, put, taken, order>>
Get(t) == /\ t \in Consumers /\ left[t] > 0 /\ q # <<>> /\ Go(t, "idle", "got") /\ left' = [left EXCEPT ![t] = @ - 1]
          /\ q' = Tail(q) /\ taken' = taken + 1 /\ order' = Append(order, Head(q)) /\ UNCHANGED <<cnt, put>>
Less(t) == Go(t, "got", "got2") /\ cnt' = Add("elements", -1) /\ UNCHANGED <<q, left, put, taken, order>>
More(t) == Go(t, "got2", "idle") /\ cnt' = Add("dequeued", 1) /\ UNCHANGED <<q, left, put, taken, order>>
Next == \E t \in Threads : Begin(t) \/ Total(t) \/ Put(t) \/ Full(t) \/ Undo1(t) \/ Undo2(t) \/ Get(t) \/ Less(t) \/ More(t)
Spec == Init /\ [][Next]_vars
NeverNegative == cnt.elements >= 0 /\ cnt.enqueued >= 0 /\ cnt.dequeued >= 0
NeverTooFew == cnt.elements >= Len(q) /\ cnt.enqueued >= put /\ cnt.dequeued <= taken
Exact == (\A t \in Threads : pc[t] = "idle") => /\ cnt = Counts(put, taken) /\ cnt.elements = Len(q)
=============================================================================
