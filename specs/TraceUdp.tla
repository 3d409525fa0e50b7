------------------------------ MODULE TraceUdp ------------------------------
EXTENDS Udp, TraceBase
VARIABLES tid, l, dests, cur, puts, ids, calls, limit
T == Traces[tid]
E == T.ev[l]
Threads == 1..T.cfg.threads
Empty == [x \in {} |-> 0]
None == [what |-> "", h |-> "", all |-> {}]
c == calls[E.t]
x == dests[E.h]
Known == E.h \in DOMAIN dests
Removing(h) == \E t \in Threads : calls[t].what \in {"rem", "all"} /\ (calls[t].h = h \/ h \in calls[t].all)
Others(h) == \E t \in Threads \ {E.t} : calls[t].what \in {"rem", "all"} /\ (calls[t].h = h \/ h \in calls[t].all)
Present(h) == dests[h].state = "yes"
Fails(h) == dests[h].broken >= 0
(* a refused datagram is reported with the next one sent *)
Noticed(h) == dests[h].flush /\ Fails(h) /\ cur >= dests[h].broken + 4
Why == CASE E.op = "put" -> IF limit >= 0 /\ E.size > limit THEN "a frame is larger than the smallest limit" ELSE ""
         [] E.op = "limit" -> ""
         [] E.op = "take" -> IF E.n # cur + 1 \/ E.n > puts THEN "frames are taken out of order" ELSE ""
         [] E.op = "quiet" -> IF cur # puts THEN "frames were not sent" ELSE ""
         [] E.op = "call" -> IF c.what # "" THEN "harness" ELSE ""
         [] E.op = "ret" ->
              IF c.what = "add" THEN (IF ~E.ok THEN "a destination could not be added"
                                      ELSE IF E.mtu > 65507 - 4 THEN "the limit of a destination is larger than what can be sent"
                                      ELSE IF \E h \in DOMAIN ids : ids[h] = E.id THEN "two destinations have the same handle" ELSE "")
              ELSE IF c.what = "all" THEN ""
              ELSE IF ~E.told THEN ""
              ELSE IF E.ok THEN (IF ~Known \/ x.state = "gone" THEN "an unknown destination was removed" ELSE "")
              ELSE IF Known /\ x.state # "gone" /\ ~Fails(E.h) /\ ~Others(E.h) THEN "a destination could not be removed" ELSE ""
         [] E.op = "break" -> ""
         [] E.op = "list" -> LET in == {h \in DOMAIN ids : ids[h] \in {E.ids[k] : k \in 1..Len(E.ids)}} IN
              IF Cardinality(in) # Len(E.ids) THEN "an unknown destination is listed"
              ELSE IF \E h \in in : dests[h].state = "gone" \/ Noticed(h) THEN "a removed or failing destination is still listed"
              ELSE IF \E h \in DOMAIN ids : Present(h) /\ ~Fails(h) /\ h \notin in THEN "a destination was removed that nobody removed" ELSE ""
         [] E.op = "name" -> IF E.ok # (Present(E.h) /\ ~Noticed(E.h)) /\ ~Fails(E.h) THEN "the name of a destination is wrong" ELSE ""
         [] E.op = "open" -> IF x.state = "gone" /\ E.n # 0 THEN "a removed destination is not closed"
                             ELSE IF Noticed(E.h) /\ E.n # 0 THEN "a failing destination is not closed"
                             ELSE IF Present(E.h) /\ ~Fails(E.h) /\ E.n # 1 THEN "a destination is closed that nobody removed" ELSE ""
         [] E.op = "got" -> IF ~Delivered(x, E.d) THEN "a destination did not get the frames sent while it was registered"
                            ELSE IF E.extra > 1 THEN "a destination got something that is no frame" ELSE ""
         [] E.op = "end" -> IF \E t \in Threads : calls[t].what # "" THEN "an operation never returned" ELSE ""
         [] OTHER -> "unexpected event: " \o E.op
Ext(f, k, y) == [z \in DOMAIN f \cup {k} |-> IF z = k THEN y ELSE f[z]]
Settle(z) == IF z.live THEN [z EXCEPT !.due = Append(@, cur)] ELSE z
Taken(z, n) == LET s == Settle(z) IN
  [s EXCEPT !.live = (z.state = "yes"), !.may = IF z.state # "gone" THEN @ \cup {n} ELSE @]
(* no destination can be sent a frame this large *)
Huge(z) == IF E.size > 65503 /\ z.state # "gone" /\ z.broken < 0 THEN [z EXCEPT !.broken = E.n, !.live = FALSE] ELSE z
Effect ==
  CASE E.op = "put" -> puts' = puts + 1 /\ UNCHANGED <<dests, cur, ids, calls, limit>>
    [] E.op = "limit" -> limit' = (IF limit < 0 \/ E.n < limit THEN E.n ELSE limit) /\ UNCHANGED <<dests, cur, puts, ids, calls>>
    [] E.op = "take" -> cur' = E.n /\ dests' = [h \in DOMAIN dests |-> Huge(Taken(dests[h], E.n))] /\ UNCHANGED <<puts, ids, calls, limit>>
    [] E.op = "quiet" -> dests' = [h \in DOMAIN dests |-> [Settle(dests[h]) EXCEPT !.live = FALSE]] /\ UNCHANGED <<cur, puts, ids, calls, limit>>
    [] E.op = "call" ->
         LET gone == IF E.what = "all" THEN {h \in DOMAIN dests : Present(h)} ELSE IF E.what = "rem" /\ Known THEN {E.h} ELSE {} IN
         /\ calls' = [calls EXCEPT ![E.t] = [what |-> E.what, h |-> E.h, all |-> IF E.what = "all" THEN gone ELSE {}]]
         /\ dests' = IF E.what = "add" THEN Ext(dests, E.h, [NewDest(E.flush) EXCEPT !.may = {cur}])
                     ELSE [h \in DOMAIN dests |-> IF h \in gone THEN [dests[h] EXCEPT !.live = FALSE, !.state = IF @ = "yes" THEN "going" ELSE @] ELSE dests[h]]
         /\ UNCHANGED <<cur, puts, ids, limit>>
    [] E.op = "ret" ->
         /\ calls' = [calls EXCEPT ![E.t] = None]
         /\ IF c.what = "add" THEN dests' = [dests EXCEPT ![E.h].state = "yes"] /\ ids' = Ext(ids, E.h, E.id)
            ELSE /\ UNCHANGED ids
                 /\ dests' = [h \in DOMAIN dests |-> IF (c.what = "all" /\ h \in c.all) \/ (c.what = "rem" /\ h = E.h /\ ((E.ok /\ E.told) \/ ~Others(h)))
                                                     THEN [dests[h] EXCEPT !.state = "gone", !.gone = cur] ELSE dests[h]]
         /\ UNCHANGED <<cur, puts, limit>>
    [] E.op = "break" -> dests' = [dests EXCEPT ![E.h].broken = puts, ![E.h].live = FALSE] /\ UNCHANGED <<cur, puts, ids, calls, limit>>
    [] OTHER -> UNCHANGED <<dests, cur, puts, ids, calls, limit>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ dests = Empty /\ cur = 0 /\ puts = 0 /\ ids = Empty /\ limit = -1
        /\ calls = [t \in 1..Traces[tid].cfg.threads |-> None]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, dests, cur, puts, ids, calls, limit>>
=============================================================================
