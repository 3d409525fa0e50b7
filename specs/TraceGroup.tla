----------------------------- MODULE TraceGroup -----------------------------
(* Reads, writes and dispatches as one step each somewhere between call    *)
(* and ret; poss: [v, done, got] for every order of steps so far.          *)
EXTENDS Group, TraceBase
VARIABLES tid, l, poss, calls, of, ids, groups
(* of: channel -> group; ids: channel -> identifier; groups: name -> id     *)
T == Traces[tid]
E == T.ev[l]
Threads == 1..T.cfg.threads
Empty == [c \in {} |-> ""]
None == [what |-> "", g |-> "", w |-> Empty, maybe |-> FALSE, fails |-> FALSE]
c == calls[E.t]
Mine(g) == {x \in DOMAIN of : of[x] = g}
Acts(p, t) == LET k == calls[t]
                  d == p.done \cup {t} IN
  CASE k.what = "write" -> {[p EXCEPT !.done = d, !.v = IF k.fails THEN @ ELSE Written(@, k.w)]}
                           \cup (IF k.maybe THEN {[p EXCEPT !.done = d]} ELSE {})
    [] k.what = "read" -> {[p EXCEPT !.done = d, !.got[t] = Snapshot(p.v, Mine(k.g))]}
    [] OTHER -> {[p EXCEPT !.done = d, !.got[t] = p.v]}
Act1(ps) == UNION {LET free == {t \in Threads : calls[t].what # "" /\ t \notin p.done} IN UNION {Acts(p, t) : t \in free} : p \in ps}
Closed == LET a == poss \cup Act1(poss)
              b == a \cup Act1(a)
          IN b \cup Act1(b)
(* a channel that was being added when the operation began may be missing *)
Agrees(p) == LET s == p.got[E.t]
             IN /\ DOMAIN E.got \subseteq DOMAIN s
                /\ \A x \in DOMAIN s : x \notin DOMAIN E.got => T.cfg.growing
                /\ \A x \in DOMAIN E.got : E.got[x] = s[x]
Returned == {[p EXCEPT !.done = @ \ {E.t}, !.got[E.t] = Empty] : p \in
               {q \in Closed : E.t \in q.done /\ (c.what \in {"read", "dispatch"} => Agrees(q))}}
Why == CASE E.op = "group" -> IF E.ok # (E.g \notin DOMAIN groups) THEN "a group is registered twice or refused"
                              ELSE IF E.ok /\ \E g \in DOMAIN groups : groups[g] = E.id THEN "two groups have the same identifier" ELSE ""
         [] E.op = "lookup" -> IF DOMAIN E.names # DOMAIN groups THEN "harness"
                               ELSE IF \E g \in DOMAIN groups : E.names[g] # groups[g] \/ E.items[g] # g THEN "a group lost its name or identifier"
                               ELSE IF \E x \in DOMAIN ids : E.chans[x] # ids[x] \/ E.reg[x] # ids[x] THEN "a channel lost its name or identifier" ELSE ""
         [] E.op = "adding" -> ""
         [] E.op = "add" -> IF E.ok # (E.c \notin DOMAIN ids /\ E.valid) THEN "a channel is added twice or refused"
                            ELSE IF E.ok /\ \E x \in DOMAIN ids : ids[x] = E.id THEN "two channels have the same identifier" ELSE ""
         [] E.op = "call" -> IF c.what # "" THEN "harness" ELSE ""
         [] E.op = "ret" -> IF c.what = "write" /\ E.ok = c.fails THEN "a write failed or succeeded wrongly"
                            ELSE IF Returned = {} THEN (IF c.what = "read" THEN "the values read are no state of the group" ELSE "the values emitted are no state of the channels") ELSE ""
         [] E.op = "end" -> IF \E t \in Threads : calls[t].what # "" THEN "an operation never returned" ELSE ""
         [] OTHER -> "unexpected event: " \o E.op
Ext(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Effect ==
  CASE E.op = "group" /\ E.ok -> groups' = Ext(groups, E.g, E.id) /\ UNCHANGED <<poss, calls, of, ids>>
    [] E.op = "adding" /\ E.valid /\ E.c \notin DOMAIN of ->
         /\ of' = Ext(of, E.c, E.g) /\ poss' = {[p EXCEPT !.v = Ext(@, E.c, E.v)] : p \in poss}
         /\ UNCHANGED <<calls, ids, groups>>
    [] E.op = "add" /\ E.ok -> ids' = Ext(ids, E.c, E.id) /\ UNCHANGED <<poss, calls, of, groups>>
    [] E.op = "call" -> calls' = [calls EXCEPT ![E.t] = [what |-> E.what, g |-> E.g, w |-> E.w, maybe |-> E.maybe, fails |-> E.fails]]
                        /\ UNCHANGED <<poss, of, ids, groups>>
    [] E.op = "ret" -> poss' = Returned /\ calls' = [calls EXCEPT ![E.t] = None] /\ UNCHANGED <<of, ids, groups>>
    [] OTHER -> UNCHANGED <<poss, calls, of, ids, groups>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ of = Empty /\ ids = Empty /\ groups = Empty
        /\ calls = [t \in 1..Traces[tid].cfg.threads |-> None]
        /\ poss = {[v |-> Empty, done |-> {}, got |-> [t \in 1..Traces[tid].cfg.threads |-> Empty]]}
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, poss, calls, of, ids, groups>>
=============================================================================
