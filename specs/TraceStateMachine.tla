------------------------- MODULE TraceStateMachine -------------------------
(* cfg.states: the states; cfg.calls[s]: which callbacks s has.            *)
EXTENDS StateMachine, TraceBase
VARIABLES tid, l, cur, data, run, calls, n, st
(* run: the run in progress <<[t, phase, to]>>; calls: thread -> [active,  *)
(* new, out] with out = <<>> or <<[a, b, err]>>; n: the machine's counters; *)
(* st: those of the states                                                 *)
T == Traces[tid]
E == T.ev[l]
S == T.cfg.states
States == {S[i] : i \in 1..Len(S)}
Has(s, f) == f \in DOMAIN T.cfg.calls[s]
Threads == 1..T.cfg.threads
c == calls[E.t]
r == run[1]
Busy == run # <<>> /\ r.phase # "done"
Mine == run # <<>> /\ r.t = E.t
(* phases without callback are passed over *)
Past(phase, to) == IF phase = "leave" /\ ~Has(cur, "leave") THEN (IF Has(to, "enter") THEN "enter" ELSE "moved")
                   ELSE IF phase = "enter" /\ ~Has(to, "enter") THEN "moved" ELSE phase
Silent == c.out = <<>> /\ ~Has(cur, "step")
Why ==
  CASE E.op = "call" -> IF c.active THEN "harness" ELSE ""
    [] E.op = "step" -> IF ~c.active THEN "harness"
                        ELSE IF Busy THEN "runs overlap"
                        ELSE IF c.out # <<>> THEN "a run takes a second step"
                        ELSE IF E.s # cur THEN "the step of another state is run"
                        ELSE IF E.data # Merge(data, c.new) THEN "the step gets other data" ELSE ""
    [] E.op = "leave" -> IF ~Mine \/ r.phase # "leave" THEN "an unexpected call to leave a state"
                         ELSE IF E.s # cur \/ E.to # r.to THEN "the wrong state is left"
                         ELSE IF E.data # data THEN "other data when leaving" ELSE ""
    [] E.op = "enter" -> IF ~Mine \/ r.phase # "enter" THEN "an unexpected call to enter a state"
                         ELSE IF E.s # r.to \/ E.from # cur THEN "the wrong state is entered"
                         ELSE IF E.data # data THEN "other data when entering" ELSE ""
    [] E.op = "hold" -> IF Busy THEN "the data is given away during a run" ELSE IF E.data # data THEN "the data is not the machine's" ELSE ""
    [] E.op = "release" -> IF run = <<>> THEN "harness" ELSE ""
    [] E.op = "ret" -> IF Silent THEN (IF E.err \/ E.a # cur \/ E.b # cur THEN "a run of a state without step" ELSE "")
                       ELSE IF c.out = <<>> THEN "a run had no step"
                       ELSE IF E.err # c.out[1].err THEN "a run failed or succeeded wrongly"
                       ELSE IF ~E.err /\ (E.a # c.out[1].a \/ E.b # c.out[1].b) THEN "the reported states are wrong" ELSE ""
    [] E.op = "final" -> IF E.cur # cur THEN "the machine is in another state"
                         ELSE IF E.data # data THEN "the machine has other data"
                         ELSE IF E.metrics /\ ~(n.iterations <= E.iterations /\ E.iterations <= n.iterations + n.errs) THEN "the iteration count is wrong"
                         ELSE IF E.metrics /\ E.transitions # n.transitions THEN "the transition count is wrong"
                         ELSE IF E.metrics /\ (E.enter_fails # n.enter_fails \/ E.exit_fails # n.exit_fails) THEN "the count of refusals is wrong"
                         ELSE IF E.metrics /\ \E i \in 1..Len(S) : LET x == st[S[i]] g == E.st[S[i]] IN
                                 \/ g.iterations < x.iterations \/ g.iterations > x.iterations + x.raised
                                 \/ g.enter_successes # x.enters \/ g.exit_successes # x.exits
                                 \/ g.enter_attempts < x.enter_tries \/ g.enter_attempts > x.enter_tries + x.raised
                                 \/ g.exit_attempts < x.exit_tries \/ g.exit_attempts > x.exit_tries + x.raised THEN "a state's counters are wrong" ELSE ""
    [] E.op = "end" -> IF \E t \in Threads : calls[t].active THEN "a run never returned" ELSE ""
    [] OTHER -> "unexpected event: " \o E.op
None == [active |-> FALSE, new |-> [a |-> -1, b |-> -1], out |-> <<>>]
Out(a, b, err) == [calls EXCEPT ![E.t].out = <<[a |-> a, b |-> b, err |-> err]>>]
(* the run of E.t, told to go `to`, has reached `phase` in state cur *)
Reach(phase, to, sts, m) ==
  LET p == Past(phase, to)
      skipped == phase = "leave" /\ p # "leave"
      s1 == IF skipped THEN [sts EXCEPT ![cur].exit_tries = @ + 1, ![cur].exits = @ + 1] ELSE sts
      s2 == IF p = "moved" THEN [s1 EXCEPT ![to].enter_tries = @ + 1, ![to].enters = @ + 1] ELSE s1
  IN CASE p \in {"leave", "enter"} -> /\ run' = <<[t |-> E.t, phase |-> p, to |-> to]>> /\ st' = s2 /\ n' = m /\ UNCHANGED <<cur, calls>>
       [] p = "moved" -> /\ run' = <<[t |-> E.t, phase |-> "done", to |-> to]>> /\ st' = s2 /\ cur' = to
                         /\ n' = [m EXCEPT !.transitions = @ + 1, !.iterations = @ + 1] /\ calls' = Out(cur, to, FALSE)
       [] p = "done" -> /\ run' = <<[t |-> E.t, phase |-> "done", to |-> to]>> /\ st' = s2 /\ UNCHANGED cur
                        /\ n' = [m EXCEPT !.iterations = @ + 1] /\ calls' = Out(cur, cur, FALSE)
       [] OTHER -> /\ run' = <<[t |-> E.t, phase |-> "done", to |-> to]>> /\ st' = s2 /\ UNCHANGED cur
                   /\ n' = [m EXCEPT !.errs = @ + 1] /\ calls' = Out(cur, cur, TRUE)
Raised(s) == [st EXCEPT ![s].raised = @ + 1]
Effect ==
  CASE E.op = "call" -> calls' = [calls EXCEPT ![E.t] = [active |-> TRUE, new |-> E.new, out |-> <<>>]] /\ UNCHANGED <<cur, data, run, n, st>>
    [] E.op = "step" -> /\ data' = E.post
                        /\ IF E.raised THEN Reach("failed", "", Raised(E.s), n)
                           ELSE Reach(AfterStep(States, cur, E.to), E.to, [st EXCEPT ![E.s].iterations = @ + 1], n)
    [] E.op = "leave" -> /\ data' = E.post
                         /\ IF E.raised THEN Reach("failed", "", Raised(E.s), n)
                            ELSE LET s1 == [st EXCEPT ![E.s].exit_tries = @ + 1, ![E.s].exits = @ + (IF E.ok THEN 1 ELSE 0)]
                                 IN Reach(AfterLeave(E.ok), r.to, s1, IF E.ok THEN n ELSE [n EXCEPT !.exit_fails = @ + 1])
    [] E.op = "enter" -> /\ data' = E.post
                         /\ IF E.raised THEN Reach("failed", "", Raised(E.s), n)
                            ELSE LET s1 == [st EXCEPT ![E.s].enter_tries = @ + 1, ![E.s].enters = @ + (IF E.ok THEN 1 ELSE 0)]
                                 IN IF E.ok THEN /\ run' = <<[r EXCEPT !.phase = "done"]>> /\ st' = s1 /\ cur' = E.s /\ calls' = Out(cur, E.s, FALSE)
                                                 /\ n' = [n EXCEPT !.transitions = @ + 1, !.iterations = @ + 1]
                                    ELSE Reach("done", r.to, s1, [n EXCEPT !.enter_fails = @ + 1])
    [] E.op = "hold" -> /\ data' = E.post /\ run' = <<[t |-> E.t, phase |-> "held", to |-> ""]>> /\ UNCHANGED <<cur, calls, n, st>>
    [] E.op = "release" -> run' = <<>> /\ UNCHANGED <<cur, data, calls, n, st>>
    [] E.op = "ret" -> /\ calls' = [calls EXCEPT ![E.t] = None]
                       /\ IF Silent THEN /\ data' = Merge(data, c.new) /\ n' = [n EXCEPT !.iterations = @ + 1]
                                         /\ st' = [st EXCEPT ![cur].iterations = @ + 1] /\ UNCHANGED <<cur, run>>
                          ELSE UNCHANGED <<cur, data, run, n, st>>
    [] OTHER -> UNCHANGED <<cur, data, run, calls, n, st>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ cur = Traces[tid].cfg.initial /\ data = Traces[tid].cfg.data /\ run = <<>>
        /\ calls = [t \in 1..Traces[tid].cfg.threads |-> None]
        /\ n = [iterations |-> 0, transitions |-> 0, enter_fails |-> 0, exit_fails |-> 0, errs |-> 0]
        /\ st = LET q == Traces[tid].cfg.states IN
                [s \in {q[i] : i \in 1..Len(q)} |->
                   [iterations |-> 0, raised |-> 0, exits |-> 0, exit_tries |-> 0,
                    enters |-> IF s = Traces[tid].cfg.initial THEN 1 ELSE 0, enter_tries |-> IF s = Traces[tid].cfg.initial THEN 1 ELSE 0]]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, cur, data, run, calls, n, st>>
=============================================================================
