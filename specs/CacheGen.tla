----------------------------- MODULE CacheGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist
Ops == {<<"put", "1", "a">>, <<"put", "1", "b">>, <<"put", "2", "a">>, <<"drop", "1", "a">>, <<"write", "1", "">>, <<"write", "2", "">>,
        <<"clean", "1", "">>, <<"open", "1", "">>, <<"open", "2", "">>}
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in Ops : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
