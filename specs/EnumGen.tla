----------------------------- MODULE EnumGen -----------------------------
(* Every short history of registrations, channels and assignments.         *)
EXTENDS Enum, TLC, Json
CONSTANTS Depth
VARIABLES hist
Names == {<<65>>, <<98>>}
Sets == {<<[v |-> 0, n |-> <<65>>]>>, <<[v |-> 7, n |-> <<98>>], [v |-> 0, n |-> <<97>>]>>,
         <<[v |-> 1, n |-> <<97>>], [v |-> 2, n |-> <<65>>]>>}
Ops == [op : {"reg"}, name : {"p", "q"}, ms : Sets, x : {<<>>}, i : {0}]
       \cup [op : {"chan"}, name : {"p", "q"}, ms : {<<>>}, x : Names \cup {<<>>}, i : {0}]
       \cup [op : {"cset", "ccmd"}, name : {""}, ms : {<<>>}, x : Names, i : {0}]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in Ops : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
