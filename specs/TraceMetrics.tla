---------------------------- MODULE TraceMetrics ----------------------------
(* Operations on a metered queue as one step each between call and ret     *)
(* (poss: every queue so far, with those that took their step and what     *)
(* they got), and the counters that are seen meanwhile and afterwards;     *)
(* other counters of an environment when nothing is going on.              *)
EXTENDS Integers, Sequences, FiniteSets, TraceBase
VARIABLES tid, l, poss, calls, n, failed
T == Traces[tid]
Q == INSTANCE Metrics WITH Bound <- T.cfg.bound
E == T.ev[l]
Threads == 1..T.cfg.threads
None == [what |-> "", v |-> 0, waits |-> FALSE, low |-> [e |-> 0, d |-> 0]]
c == calls[E.t]
Busy == {t \in Threads : calls[t].what # ""}
Pending(w) == Cardinality({t \in Threads : calls[t].what = w})
(* what an operation that hasn't taken its step yet may do now *)
Acts(p, t) == LET k == calls[t]  d == p.done \cup {t} IN
  CASE k.what = "put" -> IF Q!Fits(p.q) THEN {[p EXCEPT !.done = d, !.q = Q!PutOk(@, k.v), !.got[t] = 1]} ELSE {[p EXCEPT !.done = d, !.got[t] = -1]}
    [] k.what = "get" -> IF p.q # <<>> THEN {[p EXCEPT !.done = d, !.q = Tail(@), !.got[t] = Head(p.q)]} ELSE {[p EXCEPT !.done = d, !.got[t] = -1]}
    [] OTHER -> {}
Act1(ps) == UNION {LET free == {t \in Busy : t \notin p.done} IN UNION {Acts(p, t) : t \in free} : p \in ps}
Closed == LET a == poss \cup Act1(poss) b == a \cup Act1(a) IN b \cup Act1(b)
Got(p) == IF ~E.ok THEN p.got[E.t] = -1 ELSE IF c.what = "put" THEN p.got[E.t] = 1 ELSE p.got[E.t] = E.v
Returned == {[p EXCEPT !.done = @ \ {E.t}, !.got[E.t] = 0] : p \in {x \in Closed : E.t \in x.done /\ Got(x)}}
Exact(e) == e.enqueued = n.enq /\ e.dequeued = n.deq /\ e.elements = n.enq - n.deq
Why == CASE E.op = "call" -> IF c.what # "" THEN "harness" ELSE ""
         [] E.op = "ret" ->
              CASE c.what \in {"put", "get"} -> IF Returned = {} THEN
                       (IF E.ok THEN (IF c.what = "get" THEN "elements are not delivered once and in order" ELSE "an element was put into a full queue")
                        ELSE IF c.what = "get" THEN "an element was not delivered" ELSE "an element was refused although it fits")
                     ELSE ""
                [] c.what = "enqueued" -> IF E.v < c.low.e \/ E.v > n.enq + Pending("put") + failed THEN "the enqueue count is out of range" ELSE ""
                [] c.what = "dequeued" -> IF E.v < c.low.d \/ E.v > n.deq + Pending("get") THEN "the dequeue count is out of range" ELSE ""
                [] c.what = "elements" -> IF E.v < 0 \/ E.v > T.cfg.bound + Cardinality(Threads) THEN "the number of elements is out of range" ELSE ""
                [] OTHER -> "harness"
         [] E.op = "counts" -> IF Busy # {} THEN "harness"
                               ELSE IF ~Exact(E) \/ E.size # E.elements THEN "the reported counts of the queue differ from the true ones" ELSE ""
         [] E.op = "env" -> IF \E k \in DOMAIN E.has : E.has[k] # E.real[k]
                            THEN "a counter differs from what happened: " \o (CHOOSE k \in DOMAIN E.has : E.has[k] # E.real[k]) ELSE ""
         [] E.op = "end" -> IF Busy # {} THEN "an operation never returned" ELSE ""
         [] OTHER -> "unexpected event: " \o E.op
Effect ==
  CASE E.op = "call" -> calls' = [calls EXCEPT ![E.t] = [what |-> E.what, v |-> E.v, waits |-> E.waits, low |-> [e |-> n.enq, d |-> n.deq]]]
                        /\ UNCHANGED <<poss, n, failed>>
    [] E.op = "ret" -> /\ calls' = [calls EXCEPT ![E.t] = None]
                       /\ poss' = IF c.what \in {"put", "get"} THEN Returned ELSE poss
                       /\ n' = IF ~E.ok THEN n ELSE [n EXCEPT !.enq = @ + (IF c.what = "put" THEN 1 ELSE 0), !.deq = @ + (IF c.what = "get" THEN 1 ELSE 0)]
                       /\ failed' = failed + (IF c.what = "put" /\ ~E.ok THEN 1 ELSE 0)
    [] OTHER -> UNCHANGED <<poss, calls, n, failed>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ calls = [t \in 1..Traces[tid].cfg.threads |-> None]
        /\ n = [enq |-> 0, deq |-> 0] /\ failed = 0
        /\ poss = {[q |-> <<>>, done |-> {}, got |-> [t \in 1..Traces[tid].cfg.threads |-> 0]]}
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, poss, calls, n, failed>>
=============================================================================
