--------------------------- MODULE RegistryGen ---------------------------
EXTENDS Registry, TLC, Json
CONSTANTS Names, Depth
VARIABLES r, hist
Act(a) == hist' = Append(hist, a)
Next == /\ Len(hist) < Depth
        /\ \/ \E n \in Names : Act(<<"add", n>>) /\ r' = Add(r, n, Len(hist))
           \/ \E n \in Names : Act(<<"id", n>>) /\ UNCHANGED r
           \/ \E i \in {Count(r) - 1, Count(r), Count(r) + 2} : Act(<<"item", ToString(i)>>) /\ UNCHANGED r
           \/ Act(<<"describe", "">>) /\ UNCHANGED r
Spec == r = Empty /\ hist = <<>> /\ [][Next]_<<r, hist>>
Out == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
