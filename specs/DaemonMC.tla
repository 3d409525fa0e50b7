----------------------------- MODULE DaemonMC -----------------------------
(* Clients that request operations at any time, the thread of the daemon,  *)
(* a lock around every decision and nothing but a flag and a join between. *)
EXTENDS Daemon, FiniteSets, TLC
CONSTANTS Clients, MaxOps
VARIABLES st,        \* visible state
          threads,   \* run number -> "new" (not begun), "live", "done"
          inbody,    \* run numbers whose task is executing
          pc,        \* client -> [at, op, left, target]
          used, history
vars == <<st, threads, inbody, pc, used, history>>
Rest == [at |-> "rest", op |-> "", todo |-> <<>>, target |-> 0]
Init == /\ st = "idle" /\ threads = <<>> /\ inbody = {} /\ pc = [c \in Clients |-> Rest] /\ used = 0 /\ history = <<>>
Request(c, op) == /\ pc[c].at = "rest" /\ used < MaxOps /\ used' = used + 1
                  /\ pc' = [pc EXCEPT ![c] = [at |-> "decide", op |-> op, todo |-> Plan(op), target |-> 0]]
                  /\ UNCHANGED <<st, threads, inbody, history>>
Finish(c) == pc' = [pc EXCEPT ![c] = Rest]
(* under the lock: honour or refuse *)
Decide(c) == LET p == pc[c]  o == Head(p.todo) IN
  /\ p.at = "decide" /\ UNCHANGED <<used, inbody>>
  /\ IF st # OpFrom(o) THEN Finish(c) /\ UNCHANGED <<st, threads, history>>
     ELSE /\ st' = OpTo(o)
          /\ threads' = IF o = "start" THEN Append(threads, "new") ELSE threads
          /\ history' = IF o \in {"start", "stop"} THEN Append(history, o) ELSE history
          /\ pc' = [pc EXCEPT ![c] = [p EXCEPT !.at = CASE o = "start" -> "launch" [] o = "stop" -> "join" [] OTHER -> "next",
                                               !.target = IF o = "stop" THEN Len(threads) ELSE p.target]]
Launch(c) == /\ pc[c].at = "launch" /\ pc' = [pc EXCEPT ![c].at = "next"]
             /\ threads' = [threads EXCEPT ![Len(threads)] = "live"] /\ UNCHANGED <<st, inbody, used, history>>
Join(c) == /\ pc[c].at = "join" /\ threads[pc[c].target] = "done" /\ pc' = [pc EXCEPT ![c].at = "next"]
           /\ UNCHANGED <<st, threads, inbody, used, history>>
Advance(c) == /\ pc[c].at = "next" /\ UNCHANGED <<st, threads, inbody, used, history>>
              /\ IF Len(pc[c].todo) > 1 THEN pc' = [pc EXCEPT ![c].at = "decide", ![c].todo = Tail(@)] ELSE Finish(c)
(* the thread of run r *)
Enter(r) == /\ threads[r] = "live" /\ r \notin inbody /\ st = "starting" /\ st' = "running" /\ inbody' = inbody \cup {r}
            /\ UNCHANGED <<threads, pc, used, history>>
(* the task ends when it is asked to, or by itself *)
Leave(r) == /\ r \in inbody /\ st \in {"running", "paused", "stopping"} /\ inbody' = inbody \ {r}
            /\ st' = "idle" /\ threads' = [threads EXCEPT ![r] = "done"] /\ UNCHANGED <<pc, used, history>>
Quiet == /\ used = MaxOps /\ \A c \in Clients : pc[c].at = "rest" /\ UNCHANGED vars
Next == \/ \E c \in Clients : (\E op \in Operations \cup {"restart"} : Request(c, op)) \/ Decide(c) \/ Launch(c) \/ Join(c) \/ Advance(c)
        \/ \E r \in DOMAIN threads : Enter(r) \/ Leave(r)
        \/ Quiet
Fair == /\ \A c \in Clients : WF_vars(Decide(c)) /\ WF_vars(Launch(c)) /\ WF_vars(Join(c)) /\ WF_vars(Advance(c))
        /\ \A r \in 1..MaxOps : WF_vars(r \in DOMAIN threads /\ Enter(r)) /\ WF_vars(r \in DOMAIN threads /\ st = "stopping" /\ Leave(r))
Spec == Init /\ [][Next]_vars /\ Fair
OneTask == Cardinality(inbody) <= 1
TypeOK == st \in DaemonStates
IdleMeansNone == st \in {"idle", "starting"} => inbody = {}
Alternate == \A i \in 1..(Len(history) - 1) : history[i] = "stop" => history[i + 1] = "start"
LegalMoves == [][st' # st => \/ RunMove(st, st') \/ \E op \in Operations : st = OpFrom(op) /\ st' = OpTo(op)]_vars
StopMeansEnded == [][\A c \in Clients : (pc[c].at = "join" /\ pc'[c].at = "next") => pc[c].target \notin inbody']_vars
Answered == \A c \in Clients : (pc[c].at # "rest") ~> (pc[c].at = "rest")
=============================================================================
