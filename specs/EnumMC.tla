------------------------------ MODULE EnumMC ------------------------------
(* Enumerations are made, registered, looked up and used by channels.      *)
EXTENDS Enum, TLC
CONSTANTS Values, Letters, RegNames, MaxRegs
VARIABLES g, ch     \* registered enumerations; channels
vars == <<g, ch>>
Names == {<<c>> : c \in Letters}
MemberSeqs == {<<[v |-> a, n |-> x]>> : a \in Values, x \in Names}
              \cup {<<[v |-> a, n |-> x], [v |-> b, n |-> y]>> : a \in Values, b \in Values, x \in Names, y \in Names}
Good == {ms \in MemberSeqs : MakeOk(ms)}

Init == g = <<>> /\ ch = <<>>
Register(n, ms) == /\ Len(g) < MaxRegs \/ RegKnown(g, n)
                   /\ g' = RegAdd(g, n, Make(ms, <<>>)) /\ UNCHANGED ch
Channel(i, x) == /\ Len(ch) < 1 /\ i \in 1..Len(g)
                 /\ ch' = IF HasName(g[i].e, x) THEN Append(ch, [e |-> i, v |-> ValueOf(g[i].e, x)]) ELSE ch
                 /\ UNCHANGED g
SetName(k, x) == /\ k \in 1..Len(ch)
                 /\ ch' = IF HasName(g[ch[k].e].e, x) THEN [ch EXCEPT ![k].v = ValueOf(g[ch[k].e].e, x)] ELSE ch
                 /\ UNCHANGED g
Next == \/ \E n \in RegNames, ms \in Good : Register(n, ms)
        \/ \E i \in 1..MaxRegs, x \in Names : Channel(i, x)
        \/ \E k \in 1..1, x \in Names : SetName(k, x)
Spec == Init /\ [][Next]_vars

TwoWay == \A k \in 1..Len(g) : LET e == g[k].e IN
             /\ \A x \in Names : HasName(e, x) => HasValue(e, ValueOf(e, x)) /\ NameOf(e, ValueOf(e, x)) = Lower(x)
             /\ \A v \in Values : HasValue(e, v) => HasName(e, NameOf(e, v)) /\ ValueOf(e, NameOf(e, v)) = v
             /\ Cardinality(Range(NamesOf(e))) = Len(e.m)
DefaultIsMember == \A k \in 1..Len(g) : HasName(g[k].e, g[k].e.d)
KeepsFirst == [][\A k \in 1..Len(g) : g'[k] = g[k]]_vars
ChannelNamed == \A k \in 1..Len(ch) : HasValue(g[ch[k].e].e, ch[k].v)
RegUnique == \A i, j \in 1..Len(g) : g[i].name = g[j].name => i = j
=============================================================================
