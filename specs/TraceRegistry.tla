--------------------------- MODULE TraceRegistry ---------------------------
(* call / ret events of any number of threads; every call takes effect in  *)
(* one silent step between its call and its return.  Sequential traces are *)
(* the special case of a single thread.                                    *)
EXTENDS Registry, TraceBase
VARIABLES tid, l, r, pend
T == Traces[tid]
E == T.ev[l]
Threads == 1..T.cfg.threads
Idle == [s |-> "idle", op |-> "", name |-> "", item |-> "", arg |-> 0, ok |-> TRUE, id |-> 0, got |-> "", names |-> <<>>, items |-> <<>>]

RECURSIVE Build(_, _, _, _)
Build(base, ns, xs, i) == IF i > Len(ns) THEN base ELSE Build(Add(base, ns[i], xs[i]), ns, xs, i + 1)

Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ r = Build(Empty, Traces[tid].cfg.names, Traces[tid].cfg.items, 1)
        /\ pend = [t \in 1..Traces[tid].cfg.threads |-> Idle]

Done == l' = l + 1 /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
Call == /\ E.op = "call" /\ pend[E.t].s = "idle" /\ Done
        /\ pend' = [pend EXCEPT ![E.t] = [Idle EXCEPT !.s = "called", !.op = E.what, !.name = E.name, !.item = E.item, !.arg = E.id]]
        /\ UNCHANGED r
Lin(t) == LET p == pend[t] IN
  /\ p.s = "called" /\ l' = l
  /\ CASE p.op = "add" -> /\ r' = Add(r, p.name, p.item)
                          /\ pend' = [pend EXCEPT ![t] = [p EXCEPT !.s = "done", !.ok = AddOk(r, p.name), !.id = AddId(r, p.name)]]
       [] p.op = "id" -> /\ UNCHANGED r
                         /\ pend' = [pend EXCEPT ![t] = [p EXCEPT !.s = "done", !.ok = Known(r, p.name), !.id = IdOf(r, p.name)]]
       [] p.op = "item" -> /\ UNCHANGED r
                           /\ pend' = [pend EXCEPT ![t] = [p EXCEPT !.s = "done", !.ok = Holds(r, p.arg),
                                          !.got = IF Holds(r, p.arg) THEN ItemOf(r, p.arg) ELSE ""]]
       [] p.op = "count" -> /\ UNCHANGED r
                            /\ pend' = [pend EXCEPT ![t] = [p EXCEPT !.s = "done", !.id = Count(r)]]
       [] p.op = "describe" -> /\ UNCHANGED r
                               /\ pend' = [pend EXCEPT ![t] = [p EXCEPT !.s = "done", !.names = r.names, !.items = r.items]]
Answer(p) == CASE p.op = "add" -> E.ok = p.ok /\ E.id = p.id
               [] p.op = "id" -> E.ok = p.ok /\ E.id = p.id
               [] p.op = "item" -> E.ok = p.ok /\ E.got = p.got
               [] p.op = "count" -> E.id = p.id
               [] p.op = "describe" -> E.names = p.names /\ E.items = p.items
Ret == /\ E.op = "ret" /\ pend[E.t].s = "done" /\ Answer(pend[E.t]) /\ Done
       /\ pend' = [pend EXCEPT ![E.t] = Idle] /\ UNCHANGED r
End == E.op = "end" /\ Done /\ UNCHANGED <<r, pend>>
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ (Call \/ Ret \/ End \/ \E t \in Threads : Lin(t))
        /\ ((l' = l + 1 /\ "REPORT" \in DOMAIN IOEnv) => PrintT(<<"AT", tid, l'>>))
Spec == Init /\ [][Next]_<<tid, l, r, pend>>
=============================================================================
