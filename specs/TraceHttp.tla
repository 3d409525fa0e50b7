------------------------------ MODULE TraceHttp -----------------------------
(* Registrations and requests of several clients: what the handler that ran *)
(* got, and what was sent back.                                            *)
EXTENDS Http, TraceBase
VARIABLES tid, l, table, pending, info, req
T == Traces[tid]
E == T.ev[l]
Index == -1
(* table: what is registered; pending: being registered; req: of every client, its request *)
Idle == [on |-> FALSE, m |-> "", p |-> "", query |-> <<>>, form |-> <<>>, parts |-> <<>>, was |-> {}, h |-> 0, ok |-> FALSE, text |-> <<>>, raised |-> FALSE, known |-> {}]
r == req[E.c]
Pend(m, p) == {x.h : x \in {y \in pending : y.m = m /\ y.p = p}}
Keys2 == DOMAIN table \cup {<<x.m, x.p>> : x \in pending}
Sent == Params(r.query \o r.form)
PartOk(got, sent) == got.name = sent.name /\ got.filename = sent.filename /\ got.ctype = sent.ctype /\ got.body = Append(sent.lines, "")
PartsOk == IF r.parts = <<>> THEN E.parts = <<>> ELSE Len(E.parts) = Len(r.parts) /\ \A i \in 1..Len(r.parts) : PartOk(E.parts[i], r.parts[i])
Head1 == r.m = "HEAD"
(* the length that is announced is that of the body *)
LengthOk == IF Head1 THEN E.body = <<>> ELSE E.length = Len(E.body)
IndexOk == LET got == {<<E.index[i].m, E.index[i].p>> : i \in 1..Len(E.index)} IN
           /\ Cardinality(got) = Len(E.index) /\ r.known \subseteq got /\ got \subseteq Keys2
           /\ \A i \in 1..Len(E.index) : LET k == <<E.index[i].m, E.index[i].p>> IN
                k \in r.known => E.index[i].d = info[table[k]].desc \/ \E x \in pending : <<x.m, x.p>> = k
Answered ==
  IF Method(r.m) \notin Methods THEN IF E.status # Unsupported THEN "an unsupported method is answered wrongly" ELSE ""
  ELSE IF r.h # 0 /\ r.raised THEN (IF E.status = OK THEN "a failure of a handler is answered as a success" ELSE "")
  ELSE IF r.h # 0 /\ r.ok THEN
    IF E.status # OK THEN "a success has another status"
    ELSE IF E.ctype # info[r.h].ctype THEN "the type of the content is wrong"
    ELSE IF E.length # Len(Encoded(r.text)) THEN "the length of the content is wrong"
    ELSE IF E.extra # info[r.h].extra THEN "a header of the handler is missing"
    ELSE IF E.body # (IF Head1 THEN <<>> ELSE Encoded(r.text)) THEN "the body is not what the handler produced" ELSE ""
  ELSE IF r.h # 0 THEN
    IF E.status # Failed THEN "a failure has another status"
    ELSE IF ~LengthOk THEN "the length of the content is wrong"
    ELSE IF ~Head1 /\ ~Contains(E.body, Escaped(r.text)) THEN "a failure is not explained" ELSE ""
  ELSE IF E.isindex THEN
    IF Index \notin r.was THEN "the index is not registered here"
    ELSE IF E.status # OK \/ ~LengthOk THEN "the index is answered wrongly"
    ELSE IF ~Head1 /\ ~IndexOk THEN "the index doesn't list the registered handlers" ELSE ""
  ELSE IF E.status = OK THEN IF Index \in r.was /\ Head1 THEN "" ELSE "a success without a handler"
  ELSE IF 0 \notin r.was THEN "a registered handler was not asked"
  ELSE IF E.status # NotFound THEN "an unknown path is answered wrongly"
  ELSE IF ~LengthOk THEN "the length of the content is wrong" ELSE ""
Why == CASE E.op = "adding" -> ""
         [] E.op = "added" -> ""
         [] E.op = "req" -> IF r.on THEN "harness" ELSE ""
         [] E.op = "run" -> IF ~r.on THEN "a handler runs without a request"
                            ELSE IF r.h # 0 THEN "two handlers run for one request"
                            ELSE IF E.h \notin r.was THEN "the handler of another method or path runs"
                            ELSE IF ~E.none THEN "a parameter that was not sent has a value"
                            ELSE IF E.params # Sent THEN "the parameters differ from what was sent"
                            ELSE IF ~PartsOk THEN "the parts differ from what was sent"
                            ELSE IF E.m # r.m THEN "the request has another method" ELSE ""
         [] E.op = "resp" -> IF ~r.on THEN "harness"
                             ELSE IF E.dropped THEN (IF r.raised THEN "" ELSE "a request is not answered")
                             ELSE Answered
         [] E.op = "end" -> IF \E c \in DOMAIN req : req[c].on THEN "a request is not answered" ELSE ""
         [] OTHER -> "unexpected event: " \o E.op
With(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Effect ==
  CASE E.op = "adding" -> /\ pending' = pending \cup {[m |-> E.m, p |-> E.p, h |-> E.h]}
                          /\ info' = With(info, E.h, [ctype |-> E.ctype, desc |-> E.desc, extra |-> E.extra])
                          /\ req' = [c \in DOMAIN req |-> IF req[c].on /\ Method(req[c].m) = E.m /\ req[c].p = E.p THEN [req[c] EXCEPT !.was = @ \cup {E.h}] ELSE req[c]]
                          /\ UNCHANGED table
    [] E.op = "added" -> /\ \E x \in pending : x.h = E.h /\ table' = Registered(table, x.m, x.p, E.h) /\ pending' = pending \ {x}
                         /\ UNCHANGED <<info, req>>
    [] E.op = "req" -> /\ req' = [req EXCEPT ![E.c] = [Idle EXCEPT !.on = TRUE, !.m = E.m, !.p = E.p, !.query = E.query, !.form = E.form, !.parts = E.parts,
                                                       !.was = {Handler(table, E.m, E.p)} \cup Pend(Method(E.m), E.p), !.known = DOMAIN table]]
                       /\ UNCHANGED <<table, pending, info>>
    [] E.op = "run" -> req' = [req EXCEPT ![E.c].h = E.h, ![E.c].ok = E.ok, ![E.c].text = E.text, ![E.c].raised = E.raised] /\ UNCHANGED <<table, pending, info>>
    [] E.op = "resp" -> req' = [req EXCEPT ![E.c] = Idle] /\ UNCHANGED <<table, pending, info>>
    [] OTHER -> UNCHANGED <<table, pending, info, req>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ pending = {}
        /\ table = <<"GET", "/">> :> Index /\ info = Index :> [ctype |-> "application/json; charset=utf-8", desc |-> "request index", extra |-> ""]
        /\ req = [c \in 1..Traces[tid].cfg.clients |-> Idle]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, table, pending, info, req>>
=============================================================================
