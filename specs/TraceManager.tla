---------------------------- MODULE TraceManager ----------------------------
EXTENDS Manager, TraceBase
VARIABLES tid, l, m, sess, adding, early
(* early: states reported by daemons whose registration has not returned yet *)
T == Traces[tid]
E == T.ev[l]
Threads == 1..T.cfg.threads
Set(s) == {s[i] : i \in 1..Len(s)}
None == [kind |-> "", op |-> "", names |-> <<>>, seen |-> <<>>, applied |-> <<>>, open |-> ""]
s == sess[E.t]
Turn(q, n) == q.applied[n] # <<>> \/ q.seen[n] \cap Skipped(q.op) # {}
OkOf(q, n) == IF q.applied[n] # <<>> THEN q.applied[n][1] ELSE TRUE
Known(q) == {n \in DOMAIN m : n \in DOMAIN q.seen}
Coming(n) == \E t \in Threads \ {E.t} : adding[t] = n
EnterWhy ==
  IF s.kind = "" THEN "an operation nobody requested"
  ELSE IF E.op2 # s.op THEN "another operation than the requested one"
  ELSE IF E.n \notin DOMAIN m /\ ~Coming(E.n) THEN "an operation on an unknown daemon"
  ELSE IF s.kind = "one" /\ E.n \notin Set(s.names) THEN "an operation on another daemon"
  ELSE IF E.n \in DOMAIN s.applied /\ s.applied[E.n] # <<>> THEN "applied to a daemon more than once"
  ELSE IF s.open # "" THEN "operations overlap"
  ELSE IF E.arg # s.arg THEN "the arguments don't reach the daemon"
  ELSE IF s.kind = "all" /\ s.op = "start" /\ E.n \in DOMAIN m /\ (~T.cfg.cyclic \/ ~Circular(m, E.n)) /\ ~\A d \in Direct(m, E.n) \cap DOMAIN s.seen : Turn(s, d) THEN "started before a daemon it depends on"
  ELSE ""
RetWhy ==
  LET targets == IF s.op \notin Operations \cup {"restart", "none"} THEN {} ELSE IF s.kind = "all" THEN Known(s) ELSE Set(s.names) \cap Known(s)
      left == {n \in targets : s.op # "none" /\ ~Turn(s, n)}
      good == /\ s.op \in Operations \cup {"restart", "none"}
              /\ s.op = "none" => targets = {}
              /\ \A n \in targets : OkOf(s, n)
              /\ s.kind = "one" => \A n \in Set(s.names) : n \in DOMAIN m \/ Coming(n)
      (* a daemon that was being registered may or may not have been known *)
      sure == s.kind = "one" => Set(s.names) \subseteq DOMAIN s.seen
      free == s.kind = "all" /\ Missing(m) # {}
  IN IF s.open # "" THEN "harness"
     ELSE IF left # {} THEN "not applied to every daemon"
     ELSE IF E.ok /\ ~good THEN "success although an operation failed"
     ELSE IF ~E.ok /\ good /\ sure /\ ~free THEN "failure although every operation succeeded"
     ELSE IF E.listed /\ \E i \in 1..Len(E.results) : LET r == E.results[i] IN r.n \in targets /\ s.op # "none" /\ r.ok # OkOf(s, r.n) THEN "a wrong individual result"
     ELSE IF E.listed /\ ~(targets \subseteq {E.results[i].n : i \in 1..Len(E.results)}) THEN "an individual result is missing"
     ELSE ""
AddWhy == IF E.ok THEN (IF AddDaemonOk(m, E.n) THEN "" ELSE "a name was registered twice")
          ELSE IF E.n \in DOMAIN m \/ \E t \in Threads \ {E.t} : adding[t] = E.n THEN "" ELSE "a new daemon was refused"
StatesWhy == LET got == {<<E.list[i].n, E.list[i].s>> : i \in 1..Len(E.list)} IN
             IF Len(E.list) # Cardinality(DOMAIN m) THEN "the number of daemons listed"
             ELSE IF got # {<<n, m[n].state>> : n \in DOMAIN m} THEN "the states listed" ELSE ""
Why == CASE E.op = "addcall" -> ""
         [] E.op = "add" -> AddWhy
         [] E.op = "state" -> ""
         [] E.op = "call" -> IF s.kind # "" THEN "harness" ELSE ""
         [] E.op = "enter" -> EnterWhy
         [] E.op = "apply" -> IF s.open # E.n THEN "harness" ELSE ""
         [] E.op = "ret" -> RetWhy
         [] E.op = "states" -> StatesWhy
         [] E.op = "get" -> IF E.found # (E.n \in DOMAIN m) THEN "looking up a daemon"
                            ELSE IF E.found /\ E.who # m[E.n].who THEN "another daemon than the one registered" ELSE ""
         [] E.op = "end" -> IF \E t \in Threads : sess[t].kind # "" THEN "an operation never returned" ELSE ""
         [] OTHER -> "unexpected event: " \o E.op
Grown(f, x) == IF E.n \in DOMAIN f THEN f ELSE [n \in DOMAIN f \cup {E.n} |-> IF n = E.n THEN x ELSE f[n]]
Effect ==
  CASE E.op = "addcall" -> adding' = [adding EXCEPT ![E.t] = E.n] /\ UNCHANGED <<m, sess, early>>
    [] E.op = "add" -> /\ m' = IF E.ok THEN [k \in DOMAIN m \cup {E.n} |->
                                  IF k = E.n THEN [deps |-> Set(E.deps), state |-> IF E.who \in DOMAIN early THEN early[E.who] ELSE "idle", who |-> E.who] ELSE m[k]] ELSE m
                       /\ adding' = [adding EXCEPT ![E.t] = ""] /\ UNCHANGED <<sess, early>>
    [] E.op = "state" -> /\ m' = IF E.n \in DOMAIN m /\ m[E.n].who = E.who THEN [m EXCEPT ![E.n].state = E.s] ELSE m
                         /\ sess' = [t \in Threads |-> IF sess[t].kind # "" /\ E.n \in DOMAIN sess[t].seen
                                                       THEN [sess[t] EXCEPT !.seen[E.n] = @ \cup {E.s}] ELSE sess[t]]
                         /\ early' = [w \in DOMAIN early \cup {E.who} |-> IF w = E.who THEN E.s ELSE early[w]]
                         /\ UNCHANGED adding
    [] E.op = "call" -> /\ sess' = [sess EXCEPT ![E.t] = [kind |-> E.kind, op |-> E.op2, names |-> E.names, arg |-> E.arg, open |-> "",
                              seen |-> [n \in DOMAIN m |-> {m[n].state}], applied |-> [n \in DOMAIN m |-> <<>>]]]
                        /\ UNCHANGED <<m, adding, early>>
    [] E.op = "enter" -> sess' = [sess EXCEPT ![E.t].open = E.n, ![E.t].seen = Grown(@, {}), ![E.t].applied = Grown(@, <<>>)] /\ UNCHANGED <<m, adding, early>>
    [] E.op = "apply" -> sess' = [sess EXCEPT ![E.t].open = "", ![E.t].applied[E.n] = Append(@, E.ok)] /\ UNCHANGED <<m, adding, early>>
    [] E.op = "ret" -> sess' = [sess EXCEPT ![E.t] = None] /\ UNCHANGED <<m, adding, early>>
    [] OTHER -> UNCHANGED <<m, sess, adding, early>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ m = [n \in {} |-> [deps |-> {}, state |-> "idle", who |-> 0]]
        /\ sess = [t \in 1..Traces[tid].cfg.threads |-> None] /\ adding = [t \in 1..Traces[tid].cfg.threads |-> ""]
        /\ early = [w \in {} |-> ""]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, m, sess, adding, early>>
=============================================================================
