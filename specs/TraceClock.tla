----------------------------- MODULE TraceClock -----------------------------
(* Operations of several threads (call, the instants at which an update    *)
(* reads the real clock, ret) and observations; poss holds every clock the *)
(* operations so far can have led to, with the threads that have acted.    *)
EXTENDS Clock, TraceBase
VARIABLES tid, l, poss, calls, reg, fresh, forced, seen
(* calls: thread -> [what, x, reads, stale]; fresh: consumers agree; seen: *)
(* consumer -> latest time it reported since times were last forced        *)
T == Traces[tid]
E == T.ev[l]
Threads == 1..T.cfg.threads
None == [what |-> "", x |-> 0, s |-> [n |-> 1, d |-> 1], reads |-> {}, stale |-> FALSE]
c == calls[E.t]
(* the outcomes of letting thread t's operation act on clock k *)
Acts(k, t) == LET p == calls[t] IN
  CASE p.what = "iter" -> {Updated(k, n) : n \in {r \in p.reads : r >= k.last}}
    [] p.what = "scale" -> {Scaled(k, p.s)}
    [] p.what = "set" -> {Forced(k, p.x)}
    [] OTHER -> {k}
Act1(ps) == UNION {LET free == {t \in Threads : calls[t].what # "" /\ t \notin p.done}
                   IN UNION {LET a == Acts(p.k, t) IN {[k |-> q, done |-> p.done \cup {t}] : q \in a} : t \in free} : p \in ps}
Closed == LET a == poss \cup Act1(poss)
              b == a \cup Act1(a)
          IN b \cup Act1(b)
Returned == {[p EXCEPT !.done = @ \ {E.t}] : p \in {q \in Closed : E.t \in q.done}}
Telling(w) == w \in {"iter", "dist"}
Why == CASE E.op = "call" -> IF c.what # "" THEN "harness" ELSE ""
         [] E.op = "read" -> ""
         [] E.op = "ret" -> IF Returned = {} THEN "an operation had no effect" ELSE ""
         [] E.op = "get" -> IF ~\E p \in Closed : p.k.t = E.got THEN "the shared time is wrong" ELSE ""
         [] E.op = "times" -> IF fresh /\ (\A t \in Threads : calls[t].what = "") /\ \E i \in 1..Len(E.got) : ~\E p \in poss : p.k.t = E.got[i] THEN "a consumer reports another time than the keeper"
                              ELSE IF Len(E.got) # reg THEN "harness" ELSE ""
         [] E.op = "added" -> IF T.cfg.alone /\ ~\E p \in poss : p.k.t = E.got THEN "a consumer doesn't get the time when it is added" ELSE ""
         [] E.op = "told" -> IF ~forced /\ E.i \in DOMAIN seen /\ E.v < seen[E.i] THEN "a consumer's time went backwards" ELSE ""
         [] E.op = "slept" -> IF ~\E p \in Closed : Asleep(p.k, E.amount) = E.real THEN "a sleep lasted too long or not long enough" ELSE ""
         [] E.op = "end" -> IF \E t \in Threads : calls[t].what # "" THEN "an operation never returned" ELSE ""
         [] OTHER -> "unexpected event: " \o E.op
Effect ==
  CASE E.op = "call" -> /\ calls' = [t \in Threads |-> IF t = E.t THEN [None EXCEPT !.what = E.what, !.x = E.x, !.s = [n |-> E.n, d |-> E.d]]
                                                      ELSE IF E.what = "set" THEN [calls[t] EXCEPT !.stale = TRUE] ELSE calls[t]]
                        /\ forced' = (forced \/ E.what = "set") /\ fresh' = (fresh /\ E.what # "set")
                        /\ reg' = IF E.what = "add" THEN reg + 1 ELSE reg
                        /\ UNCHANGED <<poss, seen>>
    [] E.op = "read" -> calls' = [calls EXCEPT ![E.t].reads = @ \cup {E.now}] /\ UNCHANGED <<poss, reg, fresh, forced, seen>>
    [] E.op = "ret" -> /\ poss' = Returned
                       /\ calls' = [calls EXCEPT ![E.t] = None]
                       /\ fresh' = (fresh \/ (Telling(c.what) /\ ~c.stale /\ \A t \in Threads : calls[t].what # "set"))
                       /\ UNCHANGED <<reg, forced, seen>>
    [] E.op = "get" -> poss' = {p \in Closed : p.k.t = E.got} /\ UNCHANGED <<calls, reg, fresh, forced, seen>>
    [] E.op = "told" -> /\ seen' = [i \in DOMAIN seen \cup {E.i} |-> IF i = E.i THEN E.v ELSE seen[i]]
                        /\ UNCHANGED <<poss, calls, reg, fresh, forced>>
    [] OTHER -> UNCHANGED <<poss, calls, reg, fresh, forced, seen>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ calls = [t \in 1..Traces[tid].cfg.threads |-> None]
        /\ poss = {[k |-> [t |-> 0, last |-> 0, s |-> [n |-> Traces[tid].cfg.n, d |-> Traces[tid].cfg.d]], done |-> {}]}
        /\ reg = 0 /\ fresh = TRUE /\ forced = FALSE /\ seen = <<>>
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, poss, calls, reg, fresh, forced, seen>>
=============================================================================
