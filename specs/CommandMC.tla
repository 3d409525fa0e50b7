----------------------------- MODULE CommandMC -----------------------------
(* Submitters that wait for the outcome of their command or don't, a queue *)
(* and one server.  An outcome has two parts (a status, a message); it is  *)
(* handed over in one step (Torn = FALSE), or part by part: then a request *)
(* with two handlers can return a mixture, which "Own" rules out.          *)
EXTENDS Command
CONSTANTS Clients, PerClient, Known, MaxWait, Torn
(* kinds of commands: the handlers each reaches *)
VARIABLES q, sent, pc, served, cur, told, cell, got, waited
vars == <<q, sent, pc, served, cur, told, cell, got, waited>>
Handlers(k) == CASE k = "one" -> <<[kind |-> "ok", msg |-> "a"]>>
                 [] k = "two" -> <<[kind |-> "ok", msg |-> "a"], [kind |-> "fail", msg |-> "b"]>>
                 [] k = "raise" -> <<[kind |-> "raise", msg |-> ""]>>
                 [] OTHER -> <<>>
Report(h, e) == <<Succeeds(h.kind), IF h.kind = "raise" THEN "raised" ELSE Message(h, <<e.c, e.n>>)>>
Reports(e) == IF Handlers(e.k) = <<>> THEN <<<<FALSE, "rejected">>>> ELSE [i \in 1..Len(Handlers(e.k)) |-> Report(Handlers(e.k)[i], e)]
Kinds == {"one", "two", "raise", "none"}
NoneYet == <<FALSE, "unknown">>
Init == /\ q = <<>> /\ sent = [c \in Clients |-> 0] /\ pc = [c \in Clients |-> "rest"] /\ served = <<>> /\ cur = <<>>
        /\ told = [c \in Clients |-> <<>>] /\ cell = [c \in Clients |-> [v |-> NoneYet, sig |-> FALSE]] /\ got = [c \in Clients |-> <<>>]
        /\ waited = [c \in Clients |-> 0]
Submit(c, k) == /\ pc[c] = "rest" /\ sent[c] < PerClient /\ sent' = [sent EXCEPT ![c] = @ + 1]
                /\ q' = Append(q, [c |-> c, n |-> sent[c] + 1, k |-> k]) /\ pc' = [pc EXCEPT ![c] = "wait"]
                /\ cell' = [cell EXCEPT ![c] = [v |-> NoneYet, sig |-> FALSE]] /\ waited' = [waited EXCEPT ![c] = 0]
                /\ told' = [told EXCEPT ![c] = <<>>] /\ got' = [got EXCEPT ![c] = <<>>]
                /\ UNCHANGED <<served, cur>>
Take == /\ cur = <<>> /\ q # <<>> /\ q' = Tail(q) /\ cur' = <<[e |-> Head(q), todo |-> Reports(Head(q)), half |-> FALSE]>>
        /\ served' = Append(served, Head(q)) /\ UNCHANGED <<sent, pc, told, cell, got, waited>>
(* a handler has run: its outcome is told; a request that no longer waits gets it too, in its own cell *)
Current(e) == sent[e.c] = e.n
Tell == /\ cur # <<>> /\ cur[1].todo # <<>>
        /\ LET e == cur[1].e IN LET r == Head(cur[1].todo) IN
           IF Torn /\ ~cur[1].half
           THEN /\ cell' = IF Current(e) THEN [cell EXCEPT ![e.c].v = <<r[1], @[2]>>] ELSE cell
                /\ cur' = <<[cur[1] EXCEPT !.half = TRUE]>> /\ UNCHANGED told
           ELSE /\ cell' = IF Current(e) THEN [cell EXCEPT ![e.c] = [v |-> r, sig |-> TRUE]] ELSE cell
                /\ told' = IF Current(e) THEN [told EXCEPT ![e.c] = Append(@, r)] ELSE told
                /\ cur' = <<[cur[1] EXCEPT !.half = FALSE, !.todo = Tail(@)]>>
        /\ UNCHANGED <<q, sent, pc, served, got, waited>>
Finish == cur # <<>> /\ cur[1].todo = <<>> /\ cur' = <<>> /\ UNCHANGED <<q, sent, pc, served, told, cell, got, waited>>
Tick(c) == pc[c] = "wait" /\ ~cell[c].sig /\ waited[c] < MaxWait /\ waited' = [waited EXCEPT ![c] = @ + 1]
           /\ UNCHANGED <<q, sent, pc, served, cur, told, cell, got>>
Return(c) == /\ pc[c] = "wait" /\ (cell[c].sig \/ waited[c] = MaxWait) /\ pc' = [pc EXCEPT ![c] = "rest"]
             /\ got' = [got EXCEPT ![c] = <<IF cell[c].sig THEN cell[c].v ELSE NoneYet>>]
             /\ UNCHANGED <<q, sent, served, cur, told, cell, waited>>
Quiet == (\A c \in Clients : pc[c] = "rest" /\ sent[c] = PerClient) /\ q = <<>> /\ cur = <<>> /\ UNCHANGED vars
Next == Take \/ Tell \/ Finish \/ Quiet \/ \E c \in Clients : Tick(c) \/ Return(c) \/ \E k \in Known : Submit(c, k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Tell) /\ WF_vars(Finish) /\ \A c \in Clients : WF_vars(Tick(c)) /\ WF_vars(Return(c))
(* what a request returned is an outcome of its own command, or that none is known yet *)
Own == \A c \in Clients : got[c] # <<>> => (got[c][1] = NoneYet /\ waited[c] = MaxWait) \/ got[c][1] \in Range(told[c])
Ordered == \A i, j \in 1..Len(served) : (i < j /\ served[i].c = served[j].c) => served[i].n < served[j].n
Served == \A c \in Clients : (pc[c] = "wait") ~> (pc[c] = "rest")
AllServed == [](q # <<>> => <>(q = <<>>))
=============================================================================
