------------------------------ MODULE SerdesMC ------------------------------
(* For all small enumerations and registries of them: what is built is      *)
(* accepted by the schema, and decoding what was encoded gives the same;    *)
(* single changed fields are accepted exactly when the schema says so.      *)
EXTENDS Serdes, TLC
VARIABLES d, step
Names == {<<97>>, <<98, 95, 49>>, <<67>>, <<46>>, <<>>}
E1(k, n) == [kt |-> "int", kc |-> k, vt |-> "str", vc |-> n]
Keys == {<<48>>, <<45, 49>>}
Maps == {<<>>} \cup {<<E1(k, n)>> : k \in Keys, n \in Names} \cup {<<E1(<<48>>, n), E1(<<45, 49>>, o)>> : n \in Names, o \in Names}
Defaults == {[t |-> "null", c |-> <<>>, m |-> <<>>]} \cup {Text(n) : n \in Names}
Enums == {[default |-> x, mappings |-> Map(m), name |-> Text(n)] : x \in Defaults, m \in Maps, n \in Names}
Init == d \in {e \in Enums : Buildable("user_enum", e)} /\ step = "given"
Build == step = "given" /\ d' = Built("user_enum", d) /\ step' = "built"
Text1 == step = "built" /\ d' = Encode(d) /\ step' = "text"
Decode == step = "text" /\ d' = Built("user_enum", d) /\ step' = "decoded"
Next == Build \/ Text1 \/ Decode
Spec == Init /\ [][Next]_<<d, step>>
Names1(x) == /\ IsName(x["name"].c) /\ \A e \in Range(x["mappings"].m) : IsName(e.vc)
Acceptable == step \in {"built", "decoded"} => (Accepts("user_enum", d, TRUE) <=> Names1(d))
Stable == [][(step = "text" /\ step' = "decoded") => Buildable("user_enum", d) /\ Same(Encode(d'), d)]_<<d, step>>
Idempotent == step \in {"built", "decoded"} => Same(Built("user_enum", d), d)
=============================================================================
