----------------------------- MODULE ManagerMC -----------------------------
(* For every dependency relation over a few daemons: a stack-based walk    *)
(* (with the registration order as its input) visits every daemon exactly  *)
(* once, dependencies first, also in the presence of cycles.               *)
EXTENDS Manager, SequencesExt
CONSTANTS Names, Ghosts
VARIABLES m, stack, visited, executed
vars == <<m, stack, visited, executed>>
Init == /\ \E D \in [Names -> SUBSET (Names \cup Ghosts)] :
             m = [n \in Names |-> [deps |-> D[n], state |-> "idle"]]
        /\ \E q \in SetToSeqs(Names) : stack = q
        /\ visited = {} /\ executed = <<>>
Ran == {executed[i] : i \in 1..Len(executed)}
Deps(n) == IF n \in Names THEN m[n].deps ELSE {}
Step == /\ stack # <<>>
        /\ LET c == stack[Len(stack)]
               open == IF c \in Ran \/ c \in visited THEN {} ELSE Deps(c) \ Ran
           IN IF open # {} THEN /\ \E q \in SetToSeqs(open) : stack' = stack \o q
                                /\ visited' = visited \cup {c} /\ UNCHANGED executed
              ELSE /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ visited' = visited \cup {c}
                   /\ executed' = IF c \in Ran THEN executed ELSE Append(executed, c)
        /\ UNCHANGED m
Next == Step \/ (stack = <<>> /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Once == \A i, j \in 1..Len(executed) : i # j => executed[i] # executed[j]
Ordered == \A i \in 1..Len(executed) : executed[i] \in Names =>
             Ready(m, executed[i], {executed[j] : j \in 1..(i - 1)})
AllDone == stack = <<>> => Names \subseteq Ran
Ends == <>(stack = <<>>)
=============================================================================
