---------------------------- MODULE EmissionGen ----------------------------
EXTENDS Emission, Json
CONSTANTS Depth, Cap
VARIABLES S, hist
B(b) == [k |-> "bool", b |-> b]
N(n) == IntV(FromInt(n, W))
Init == /\ S = [Env(80, FALSE, <<0, 1>>) EXCEPT !.ch = <<Channel("a", "boolean", 1024, TRUE, TRUE), Channel("b", "uint16", 700, TRUE, TRUE)>>]
        /\ hist = <<>>
Now == 512 * (Len(hist) + 1)
Act(a) == hist' = Append(hist, a)
Set(i, v, s) == S' = Assign(S, i, v, Now, Cap) /\ Act(<<"set", ToString(i), s>>)
Next == Len(hist) < Depth /\
  (\/ Set(1, B(TRUE), "1") \/ Set(1, B(FALSE), "0") \/ Set(2, N(3), "3")
   \/ \E t \in {Now, Now - 600} : t >= 0 /\ S' = AfterDispatch(S, t) /\ Act(<<"dispatch", ToString(t), "">>)
   \/ S' = [S EXCEPT !.mtu = IF @ > 44 THEN 44 ELSE @] /\ Act(<<"mtu", "44", "">>))
Spec == Init /\ [][Next]_<<S, hist>>
Out == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
