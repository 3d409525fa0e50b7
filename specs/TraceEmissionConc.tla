-------------------------- MODULE TraceEmissionConc --------------------------
(* One dispatching thread, setters of distinct channels and registrations   *)
(* in other threads.  An assignment becomes visible and is then captured as *)
(* an event (two silent steps); a dispatch visits the channels in order and *)
(* then takes the events that are pending at one moment.                    *)
EXTENDS Emission, TraceBase
VARIABLES tid, l, S, pend
vars == <<tid, l, S, pend>>
T == Traces[tid]
E == T.ev[l]
Threads == 1..T.cfg.threads
Idle == [s |-> "idle"]
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ S = [Env(Traces[tid].cfg.mtu, Traces[tid].cfg.crc, Traces[tid].cfg.app) EXCEPT !.ch =
                 FoldLeft(LAMBDA acc, x : Append(acc, Channel(x.name, x.type, x.rate, x.tracked, x.cmd)), <<>>, Traces[tid].cfg.chans)]
        /\ pend = [t \in 1..Traces[tid].cfg.threads |-> Idle]
Adv == l' = l + 1 /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
Call == /\ E.op = "call" /\ pend[E.t].s = "idle" /\ Adv /\ UNCHANGED S
        /\ pend' = [pend EXCEPT ![E.t] =
             CASE E.what = "set" -> [s |-> "set", i |-> E.i, v |-> Stored(S.ch[E.i].type, E.v), time |-> E.time]
               [] E.what = "add" -> [s |-> "add", name |-> E.name, type |-> E.type, rate |-> E.rate, v |-> Stored(E.type, E.v), time |-> E.time]
               [] E.what = "dispatch" -> [s |-> "emit", k |-> 1, time |-> E.time, items |-> <<>>]]
Step(t) ==
  LET p == pend[t] IN l' = l /\
  CASE p.s = "set" -> LET c == S.ch[p.i] IN
         /\ S' = [S EXCEPT !.ch[p.i].v = p.v, !.ch[p.i].at = p.time]
         /\ pend' = [pend EXCEPT ![t] = IF c.tracked /\ ~SameValue(c.v, p.v)
               THEN [s |-> "capture", ev |-> [i |-> p.i, pv |-> c.v, pt |-> c.at, v |-> p.v, t |-> p.time]]
               ELSE [s |-> "done", n |-> 0, frames |-> <<>>]]
    [] p.s = "capture" -> /\ S' = [S EXCEPT !.q = Append(@, p.ev)]
                          /\ pend' = [pend EXCEPT ![t] = [s |-> "done", n |-> 0, frames |-> <<>>]]
    [] p.s = "add" -> LET X == [S EXCEPT !.ch = Append(@, Channel(p.name, p.type, p.rate, TRUE, TRUE))] IN
         /\ S' = Assign(X, Len(X.ch), p.v, p.time, 256)
         /\ pend' = [pend EXCEPT ![t] = [s |-> "done", n |-> Len(S.ch), frames |-> <<>>]]
    [] p.s = "emit" -> IF p.k > Len(S.ch)
         THEN LET fs == Wires(Pack(S, 1, p.time, p.items)) \o Wires(EventFrames(S, p.time)) IN
              /\ S' = [S EXCEPT !.q = <<>>]
              /\ pend' = [pend EXCEPT ![t] = [s |-> "done", n |-> Len(fs), frames |-> fs]]
         ELSE LET c == S.ch[p.k] IN
              /\ S' = IF Due(c, p.time) THEN [S EXCEPT !.ch[p.k].emitted = p.time] ELSE S
              /\ pend' = [pend EXCEPT ![t] = [p EXCEPT !.k = @ + 1,
                     !.items = IF Due(c, p.time) THEN Append(@, <<p.k - 1, Bits(c.type, c.v)>>) ELSE @]]
    [] OTHER -> FALSE
Ret == /\ E.op = "ret" /\ pend[E.t].s = "done" /\ Adv /\ UNCHANGED S
       /\ E.n = pend[E.t].n /\ E.frames = pend[E.t].frames
       /\ pend' = [pend EXCEPT ![E.t] = Idle]
End == E.op = "end" /\ Adv /\ UNCHANGED <<S, pend>>
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ (Call \/ Ret \/ End \/ \E t \in Threads : Step(t))
        /\ ((l' = l + 1 /\ "REPORT" \in DOMAIN IOEnv) => PrintT(<<"AT", tid, l'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
