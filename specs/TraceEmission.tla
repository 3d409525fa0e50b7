---------------------------- MODULE TraceEmission ----------------------------
(* A telemetry environment driven from one thread.  Channels flagged opaque *)
(* (built-in metrics) have values the specification does not predict, but   *)
(* they are emitted, packed and tracked like any other.                     *)
EXTENDS Emission, TraceBase
CONSTANT Cap
VARIABLES tid, l, S, opq, seen, tot
vars == <<tid, l, S, opq, seen, tot>>
T == Traces[tid]
E == T.ev[l]
NoTot == [emits |-> 0, events |-> 0, dispatches |-> 0, frames |-> 0]
Build(c) == FoldLeft(LAMBDA acc, x : Append(acc, Channel(x.name, x.type, x.rate, x.tracked, x.cmd)), <<>>, c)
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ S = [Env(Traces[tid].cfg.mtu, Traces[tid].cfg.crc, Traces[tid].cfg.app) EXCEPT !.ch = Build(Traces[tid].cfg.chans)]
        /\ opq = Len(Traces[tid].cfg.chans) /\ seen = <<>> /\ tot = NoTot
Reg == [i \in 1..Len(S.ch) |-> [name |-> S.ch[i].name, type |-> S.ch[i].type, stream |-> FALSE]]
Opaque(i) == i <= opq

(* ---- values *)
C == S.ch[E.i]
When == CASE E.how \in {"now", "name", "id"} -> S.now [] OTHER -> E.time
Command == E.how \in {"command", "name", "id"}
IntSum == AddTc(C.v.x, IF E.c.k = "bool" THEN OfBool(E.c.b) ELSE Tc(E.c))
Takes == IF ~E.add THEN Acceptable(C.type, E.c)
         ELSE CASE KindOf(C.type) = "bool" -> FALSE
                [] KindOf(C.type) = "float" -> Acceptable(C.type, E.sum)
                [] OTHER -> E.c.k \in {"int", "bool"} /\ InRange(C.type, IntSum)
New == IF ~E.add THEN Stored(C.type, E.c) ELSE IF KindOf(C.type) = "int" THEN IntV(IntSum) ELSE E.sum
Accepted == E.i # 0 /\ (Command => C.cmd) /\ Takes
AfterPut == IF Accepted THEN Assign(S, E.i, New, When, Cap) ELSE S
ReadsAs(i, X) == /\ E.v.k = X.ch[i].v.k
                 /\ Identical(IF E.v.k = "int" THEN IntV(Tc(E.v)) ELSE E.v, X.ch[i].v)
                 /\ E.at = X.ch[i].at
PutWhy == IF E.ok # Accepted THEN "accepted exactly when the value can be represented (and may be commanded)"
          ELSE IF E.i = 0 THEN ""
          ELSE IF ReadsAs(E.i, AfterPut) THEN "" ELSE "value or time after the assignment"

(* ---- registration *)
AddAccepted == ~Known(S, E.name) /\ (E.init => Acceptable(E.type, E.c))
AddedCh == Channel(E.name, E.type, E.rate, E.tracked, E.cmd)
AfterAdd == IF ~AddAccepted THEN S
            ELSE LET X == [S EXCEPT !.ch = Append(@, AddedCh)]
                 IN IF E.init THEN Assign(X, Len(X.ch), Stored(E.type, E.c), E.time, Cap) ELSE X

(* ---- dispatching *)
At == IF E.isnow THEN S.now ELSE E.time
Dec(b) == Decode(b, Reg, S.app)
IsKind(b, kind) == Len(b) >= 3 /\ b[3] = kind
OfKind(kind) == SelectSeq(E.frames, LAMBDA b : IsKind(b, kind))
Elements(fs, kind) == Cat([j \in 1..Len(fs) |->
   LET r == Dec(fs[j]) IN
   [k \in 1..Len(r.items) |-> LET it == r.items[k] s == Size(S.ch[it.id + 1].type)
                              IN <<it.id, Slice(fs[j], it.off, IF kind = 1 THEN s ELSE 2 * s + 16)>>]])
Sound == \A j \in 1..Len(E.frames) : ~Dec(E.frames[j]).none
DataEls == Elements(OfKind(1), 1)
EventEls == Elements(OfKind(2), 2)
Plan == DataItems(S, At)
Pending == [j \in 1..Len(S.q) |-> EventItem(S, S.q[j])]
UserEls(els) == SelectSeq(els, LAMBDA x : ~Opaque(x[1] + 1))
OpaqueEls(els) == SelectSeq(els, LAMBDA x : Opaque(x[1] + 1))
(* successive events of a channel: each starts from the value the previous one ended with *)
OldOf(x) == LET s == Size(S.ch[x[1] + 1].type) IN SubSeq(x[2], 1, s)
NewOf(x) == LET s == Size(S.ch[x[1] + 1].type) IN Slice(x[2], s + 8, s)
RECURSIVE Walk(_, _)
Walk(els, sn) == IF els = <<>> THEN [ok |-> TRUE, seen |-> sn]
   ELSE LET x == Head(els) i == x[1]
            known == \E k \in 1..Len(sn) : sn[k][1] = i
            now == SelectSeq(sn, LAMBDA y : y[1] # i)
            prev == SelectSeq(sn, LAMBDA y : y[1] = i)
        IN IF OldOf(x) = NewOf(x) \/ (known /\ prev[1][2] # OldOf(x)) \/ (~known /\ OldOf(x) # Zeros(Len(OldOf(x))))
           THEN [ok |-> FALSE, seen |-> sn]
           ELSE Walk(Tail(els), Append(now, <<i, NewOf(x)>>))
Walked == Walk(OpaqueEls(EventEls), seen)
FramesOf(kind, els) == Wires(Pack(S, kind, At, els))
DispatchWhy ==
  IF \E j \in 1..Len(E.frames) : Len(E.frames[j]) > S.mtu THEN "a frame exceeds the maximum size"
  ELSE IF ~Sound THEN "a frame can't be decoded"
  ELSE IF \E j \in 1..Len(E.frames) : ~IsKind(E.frames[j], 1) /\ ~IsKind(E.frames[j], 2) THEN "a frame of another type"
  ELSE IF [j \in 1..Len(DataEls) |-> DataEls[j][1]] # [j \in 1..Len(Plan) |-> Plan[j][1]] THEN "the channels emitted"
  ELSE IF \E j \in 1..Len(Plan) : ~Opaque(Plan[j][1] + 1) /\ DataEls[j] # Plan[j] THEN "a value emitted"
  ELSE IF UserEls(EventEls) # Pending THEN "the change events delivered"
  ELSE IF ~Walked.ok THEN "a change event of a metric channel"
  ELSE IF OfKind(1) # FramesOf(1, DataEls) THEN "how emissions are packed and stamped"
  ELSE IF OfKind(2) # FramesOf(2, EventEls) THEN "how events are packed and stamped"
  ELSE IF E.n # Len(E.frames) THEN "reported number of frames"
  ELSE ""
MetricsWhy == IF E.emits # tot.emits THEN "metric: emits captured"
              ELSE IF E.events # tot.events THEN "metric: events captured"
              ELSE IF E.dispatches # tot.dispatches THEN "metric: dispatch count"
              ELSE IF E.channels # Len(S.ch) THEN "metric: channel count"
              ELSE IF E.enqueued # tot.frames \/ E.dequeued # tot.frames \/ E.elements # 0 THEN "metric: frame queue" ELSE ""

Why == CASE E.op = "put" -> PutWhy
         [] E.op = "add" -> IF E.ok # AddAccepted THEN "registration accepted exactly when it is new and its initial value valid"
                            ELSE IF E.ok /\ E.id # Len(S.ch) THEN "identifier of a new channel" ELSE ""
         [] E.op = "read" -> IF ReadsAs(E.i, S) THEN "" ELSE "value or time held"
         [] E.op = "dispatch" -> DispatchWhy
         [] E.op = "metrics" -> MetricsWhy
         [] E.op \in {"time", "rate", "mtu", "end"} -> ""
         [] OTHER -> "unexpected event"
Next == /\ l <= Len(T.ev)
        /\ IF Why = ""
           THEN /\ S' = CASE E.op = "put" -> AfterPut
                          [] E.op = "add" -> AfterAdd
                          [] E.op = "dispatch" -> AfterDispatch(S, At)
                          [] E.op = "time" -> [S EXCEPT !.now = E.time]
                          [] E.op = "rate" -> [S EXCEPT !.ch[E.i].rate = E.rate]
                          [] E.op = "mtu" -> [S EXCEPT !.mtu = IF E.mtu < @ THEN E.mtu ELSE @]
                          [] OTHER -> S
                /\ seen' = IF E.op = "dispatch" THEN Walked.seen ELSE seen
                /\ tot' = IF E.op = "dispatch"
                          THEN [emits |-> tot.emits + Len(DataEls), events |-> tot.events + Len(EventEls),
                                dispatches |-> tot.dispatches + 1, frames |-> tot.frames + Len(E.frames)] ELSE tot
                /\ l' = l + 1 /\ UNCHANGED <<tid, opq>>
                /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
