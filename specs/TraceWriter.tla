----------------------------- MODULE TraceWriter ----------------------------
(* What a writer does: frames taken, written, queued; outputs attached and *)
(* detached by any thread; failures handled.                               *)
EXTENDS Writer, TraceBase
VARIABLES tid, l, outs, cur, puts, ids, calls, sum
T == Traces[tid]
E == T.ev[l]
Threads == 1..T.cfg.threads
Empty == [x \in {} |-> 0]
None == [what |-> "", o |-> "", marker |-> FALSE, closer |-> FALSE]
c == calls[E.t]
o == outs[E.o]
Known == E.o \in DOMAIN outs
Pending(x) == \E t \in Threads : calls[t].what = "rem" /\ calls[t].o = x
Others(x) == \E t \in Threads \ {E.t} : calls[t].what = "rem" /\ calls[t].o = x
Streams == {x \in DOMAIN outs : outs[x].kind # "queue"}
Queues == {x \in DOMAIN outs : outs[x].kind = "queue"}
Attached(x) == outs[x].state = "yes" /\ ~outs[x].failed
Finished == IF \E x \in DOMAIN outs : ~Served(outs[x], cur) THEN "an attached output missed a frame"
            ELSE IF \E x \in DOMAIN outs : ~Detached(outs[x], T.cfg.handler) THEN "a failing stream was not detached" ELSE ""
WhyRem == IF E.ok THEN IF ~Known THEN "an unknown output was removed"
                       ELSE IF o.removed \/ o.handled > 0 THEN "an output was removed twice"
                       ELSE IF c.marker /\ o.kind = "queue" /\ o.nones # 1 THEN "a removed queue was not ended"
                       ELSE IF ~c.marker /\ o.nones # 0 THEN "a removed queue was ended although it should not be"
                       ELSE IF o.closer /\ o.kind # "sem" /\ o.closed # (IF c.closer THEN 1 ELSE 0) THEN "the closer was called wrongly" ELSE ""
          ELSE IF Known /\ ~o.removed /\ ~o.failed /\ ~Others(E.o) /\ o.state # "no" THEN "an attached output could not be removed" ELSE ""
Why == CASE E.op = "put" -> ""
         [] E.op = "take" -> IF E.n # cur + 1 \/ E.n > puts THEN "frames are taken out of order" ELSE Finished
         [] E.op = "quiet" -> IF cur # puts THEN "frames were not processed" ELSE Finished
         [] E.op = "call" -> IF c.what # "" \/ (E.what = "add" /\ Known) THEN "harness" ELSE ""
         [] E.op = "ret" -> IF c.what = "add" THEN (IF ~E.ok THEN "an output could not be added"
                                                    ELSE IF \E x \in (IF o.kind = "queue" THEN Queues ELSE Streams) : x \in DOMAIN ids /\ ids[x] = E.id
                                                         THEN "an identifier was used twice" ELSE "")
                            ELSE WhyRem
         [] E.op = "write" -> IF ~Known \/ o.kind = "queue" THEN "harness"
                              ELSE IF E.n # cur THEN "something else than the current frame was written"
                              ELSE IF o.last = cur THEN "a frame was written twice"
                              ELSE IF ~MayGet(o, cur) THEN "a frame was written to a detached output" ELSE ""
         [] E.op = "flush" -> IF o.last # cur /\ o.last # 0 THEN "harness" ELSE ""
         [] E.op = "qput" -> IF E.n = -1 THEN (IF Pending(E.o) /\ o.nones = 0 THEN "" ELSE "a queue was ended that nobody removed")
                             ELSE IF E.n # cur THEN "something else than the current frame was queued"
                             ELSE IF o.last = cur THEN "a frame was queued twice"
                             ELSE IF ~MayGet(o, cur) THEN "a frame was queued to a detached output" ELSE ""
         [] E.op = "handle" -> IF ~Known \/ ~o.failed THEN "a failure was reported for a stream that did not fail"
                               ELSE IF o.handled > 0 THEN "a failure was reported twice"
                               ELSE IF o.removed THEN "a failure was reported for a stream that was removed" ELSE ""
         [] E.op = "closer" -> IF ~Known \/ ~o.closer THEN "harness"
                               ELSE IF o.closed > 0 THEN "a closer was called twice"
                               ELSE IF ~(o.failed \/ \E t \in Threads : calls[t].what = "rem" /\ calls[t].o = E.o /\ calls[t].closer)
                                    THEN "a closer was called for an attached output" ELSE ""
         [] E.op = "sem" -> IF E.n # (IF o.removed THEN o.closed ELSE IF o.failed THEN 1 ELSE 0) THEN "the semaphore of a stream was not released exactly once" ELSE ""
         [] E.op = "content" -> IF E.frames # o.due THEN "a file does not contain the frames written while it was attached" ELSE ""
         [] E.op = "final" ->
              IF E.m.stream_writes # sum.writes \/ E.m.bytes_written # sum.bytes \/ E.m.queue_writes # sum.queued THEN "the counts do not equal what was written"
              ELSE IF E.m.stream_count # Cardinality({x \in Streams : Attached(x)}) \/ E.m.queue_count # Cardinality({x \in Queues : Attached(x)})
                   THEN "the number of outputs is wrong"
              ELSE IF \E x \in DOMAIN outs : outs[x].state \in {"coming", "going"} /\ ~outs[x].failed THEN "an output is neither attached nor removed"
              ELSE IF ~E.alive THEN "the writer ended" ELSE ""
         [] E.op = "end" -> IF \E t \in Threads : calls[t].what # "" THEN "an operation never returned" ELSE ""
         [] OTHER -> "unexpected event: " \o E.op
Ext(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Ok(x) == [sum EXCEPT !.writes = @ + 1, !.bytes = @ + E.size]
Effect ==
  CASE E.op = "put" -> puts' = puts + 1 /\ UNCHANGED <<outs, cur, ids, calls, sum>>
    [] E.op = "take" -> cur' = E.n /\ outs' = [x \in DOMAIN outs |-> Take(outs[x], E.n)] /\ UNCHANGED <<puts, ids, calls, sum>>
    [] E.op = "call" -> /\ calls' = [calls EXCEPT ![E.t] = [what |-> E.what, o |-> E.o, marker |-> E.marker, closer |-> E.cl]]
                        /\ outs' = IF E.what = "add" THEN Ext(outs, E.o, NewOut(E.kind, E.flush, E.closer, 0))
                                   ELSE IF Known THEN [outs EXCEPT ![E.o].live = FALSE, ![E.o].state = IF @ = "yes" THEN "going" ELSE @] ELSE outs
                        /\ UNCHANGED <<cur, puts, ids, sum>>
    [] E.op = "ret" -> /\ calls' = [calls EXCEPT ![E.t] = None]
                       /\ IF c.what = "add" THEN outs' = [outs EXCEPT ![E.o].state = "yes"] /\ ids' = Ext(ids, E.o, E.id)
                          ELSE /\ UNCHANGED ids
                               /\ outs' = IF E.ok THEN [outs EXCEPT ![E.o].removed = TRUE, ![E.o].state = "gone", ![E.o].gone = cur,
                                                                ![E.o].closed = IF o.kind = "sem" /\ c.closer THEN 1 ELSE @] ELSE outs
                       /\ UNCHANGED <<cur, puts, sum>>
    [] E.op = "write" -> /\ outs' = [outs EXCEPT ![E.o].last = cur, ![E.o].failed = ~E.ok]
                         /\ sum' = IF E.ok /\ ~o.flush THEN Ok(E.o) ELSE sum
                         /\ UNCHANGED <<cur, puts, ids, calls>>
    [] E.op = "flush" -> /\ outs' = [outs EXCEPT ![E.o].flushed = cur, ![E.o].failed = ~E.ok]
                         /\ sum' = IF E.ok /\ o.flush /\ o.flushed # cur THEN Ok(E.o) ELSE sum
                         /\ UNCHANGED <<cur, puts, ids, calls>>
    [] E.op = "qput" -> /\ outs' = IF E.n = -1 THEN [outs EXCEPT ![E.o].nones = @ + 1] ELSE [outs EXCEPT ![E.o].last = cur]
                        /\ sum' = IF E.n = -1 THEN sum ELSE [sum EXCEPT !.queued = @ + 1]
                        /\ UNCHANGED <<cur, puts, ids, calls>>
    [] E.op = "handle" -> outs' = [outs EXCEPT ![E.o].handled = 1] /\ UNCHANGED <<cur, puts, ids, calls, sum>>
    [] E.op = "closer" -> outs' = [outs EXCEPT ![E.o].closed = 1] /\ UNCHANGED <<cur, puts, ids, calls, sum>>
    [] E.op = "content" -> /\ outs' = outs
                           /\ sum' = [sum EXCEPT !.writes = @ + Len(E.frames), !.bytes = @ + E.size]
                           /\ UNCHANGED <<cur, puts, ids, calls>>
    [] OTHER -> UNCHANGED <<outs, cur, puts, ids, calls, sum>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ outs = Empty /\ cur = 0 /\ puts = 0 /\ ids = Empty
        /\ calls = [t \in 1..Traces[tid].cfg.threads |-> None] /\ sum = [writes |-> 0, bytes |-> 0, queued |-> 0]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, outs, cur, puts, ids, calls, sum>>
=============================================================================
