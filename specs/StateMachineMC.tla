--------------------------- MODULE StateMachineMC ---------------------------
(* Threads that run one machine under its lock, callback by callback; every *)
(* callback may give any verdict.                                          *)
EXTENDS StateMachine, TLC
CONSTANTS Threads, States, Initial, MaxRuns
VARIABLES cur, lock, pc, to, from, runs, log, counts, res
vars == <<cur, lock, pc, to, from, runs, log, counts, res>>
Nowhere == "nowhere"
Init == /\ cur = Initial /\ lock = "free" /\ pc = [t \in Threads |-> "rest"] /\ to = [t \in Threads |-> Initial]
        /\ from = [t \in Threads |-> Initial] /\ runs = 0 /\ log = <<>> /\ counts = [moves |-> 0, iters |-> 0, refusals |-> 0]
        /\ res = [t \in Threads |-> <<Initial, Initial>>]
Take(t) == /\ pc[t] = "rest" /\ runs < MaxRuns /\ lock = "free" /\ lock' = t /\ runs' = runs + 1
           /\ pc' = [pc EXCEPT ![t] = "step"] /\ from' = [from EXCEPT ![t] = cur]
           /\ UNCHANGED <<cur, to, log, counts, res>>
Step(t) == /\ pc[t] = "step" /\ \E n \in States \cup {Nowhere} :
                /\ to' = [to EXCEPT ![t] = n] /\ pc' = [pc EXCEPT ![t] = AfterStep(States, cur, n)]
           /\ log' = Append(log, <<"step", cur>>)
           /\ UNCHANGED <<cur, lock, from, runs, counts, res>>
Leave(t) == /\ pc[t] = "leave" /\ \E ok \in BOOLEAN :
                 /\ pc' = [pc EXCEPT ![t] = AfterLeave(ok)] /\ log' = Append(log, <<"leave", cur, ok>>)
                 /\ counts' = IF ok THEN counts ELSE [counts EXCEPT !.refusals = @ + 1]
            /\ UNCHANGED <<cur, lock, to, from, runs, res>>
Enter(t) == /\ pc[t] = "enter" /\ \E ok \in BOOLEAN :
                 /\ pc' = [pc EXCEPT ![t] = "done"] /\ log' = Append(log, <<"enter", to[t], ok>>)
                 /\ cur' = Ends(cur, to[t], TRUE, ok)
                 /\ counts' = IF ok THEN [counts EXCEPT !.moves = @ + 1] ELSE [counts EXCEPT !.refusals = @ + 1]
            /\ UNCHANGED <<lock, to, from, runs, res>>
Finish(t) == /\ pc[t] = "done" /\ counts' = [counts EXCEPT !.iters = @ + 1] /\ res' = [res EXCEPT ![t] = <<from[t], cur>>]
             /\ lock' = "free" /\ pc' = [pc EXCEPT ![t] = "rest"] /\ UNCHANGED <<cur, to, from, runs, log>>
Fail(t) == /\ pc[t] = "failed" /\ lock' = "free" /\ pc' = [pc EXCEPT ![t] = "rest"]
           /\ UNCHANGED <<cur, to, from, runs, log, counts, res>>
Next == \E t \in Threads : Take(t) \/ Step(t) \/ Leave(t) \/ Enter(t) \/ Finish(t) \/ Fail(t)
Spec == Init /\ [][Next]_vars
InAState == cur \in States
OneRun == Cardinality({t \in Threads : pc[t] # "rest"}) <= 1
(* every state entered has been left for, once; a step is that of the state *)
(* the machine has moved into last                                         *)
RECURSIVE Replay(_, _)
Replay(q, s) == IF q = <<>> THEN s
                ELSE LET e == Head(q) IN
                     CASE e[1] = "step" -> IF e[2] # s THEN "wrong" ELSE Replay(Tail(q), s)
                       [] e[1] = "leave" -> IF e[2] # s THEN "wrong" ELSE Replay(Tail(q), s)
                       [] OTHER -> Replay(Tail(q), IF e[3] THEN e[2] ELSE s)
Sequential == Replay(log, Initial) = cur
Counted == counts.moves = Cardinality({i \in 1..Len(log) : log[i][1] = "enter" /\ log[i][3]})
=============================================================================
