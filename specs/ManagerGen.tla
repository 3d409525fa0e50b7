----------------------------- MODULE ManagerGen -----------------------------
(* Every acyclic dependency relation over three daemons, registered in     *)
(* every order (so also before what they depend on), and two operations.   *)
EXTENDS Manager, SequencesExt, TLC, Json
CONSTANT Ops
Names == {"a", "b", "c"}
VARIABLE g
Dag(D) == \A n \in Names : ~Circular([x \in Names |-> [deps |-> D[x], state |-> "idle"]], n)
Init == \E D \in [Names -> SUBSET Names] : \E q \in SetToSeqs(Names) : \E o1, o2 \in Ops :
          Dag(D) /\ g = [order |-> q, deps |-> [i \in 1..3 |-> D[q[i]]], ops |-> <<o1, o2>>]
Next == UNCHANGED g
Spec == Init /\ [][Next]_g
Emit == PrintT("GEN " \o ToJson(g))
=============================================================================
