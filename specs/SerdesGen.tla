------------------------------ MODULE SerdesGen ------------------------------
(* Descriptions that differ from an acceptable one in up to N fields.       *)
EXTENDS Serdes, TLC, Json
CONSTANT N
VARIABLES kind, d, edits, full
Str(c) == [t |-> "str", c |-> c, m |-> <<>>]
V(t, c) == [t |-> t, c |-> c, m |-> <<>>]
E1(kt, k, vt, v) == [kt |-> kt, kc |-> k, vt |-> vt, vc |-> v]
A == <<97>>
B == <<98, 95, 49>>
Base == [user_enum |-> [default |-> Str(A), name |-> Str(B), type |-> Str(TypeName["user_enum"]),
                        mappings |-> Map(<<E1("int", <<48>>, "str", A), E1("int", <<45, 49>>, "str", B)>>)],
         enum_registry |-> [enums |-> Map(<<E1("str", A, "map", <<>>)>>), type |-> Str(TypeName["enum_registry"]),
                            mappings |-> Map(<<E1("int", <<48>>, "str", A)>>)],
         serializable_primitive |-> [integer |-> V("bool", <<49>>), max |-> V("int", <<55>>), min |-> V("int", <<48>>),
                                     name |-> Str(<<105, 110, 116, 56>>), signed |-> V("bool", <<48>>), size |-> V("int", <<49>>),
                                     type |-> Str(TypeName["serializable_primitive"])]]
Pool == {V("null", <<>>), V("bool", <<49>>), V("int", <<53>>), V("float", <<49, 46, 53>>), V("list", <<>>),
         Str(A), Str(<<90, 95, 48>>), Str(<<97, 45, 98>>), Str(<<>>), Str(<<117, 110, 105, 116>>),
         Map(<<>>), Map(<<E1("int", <<55>>, "str", A)>>), Map(<<E1("str", <<55>>, "str", A)>>), Map(<<E1("str", <<120>>, "str", A)>>),
         Map(<<E1("int", <<49>>, "int", <<50>>)>>), Map(<<E1("int", <<49>>, "str", <<65>>), E1("int", <<50>>, "str", A)>>),
         Map(<<E1("int", <<49>>, "str", <<97, 32>>)>>), Map(<<E1("str", A, "map", <<>>), E1("str", B, "map", <<>>)>>)}
Names == UNION {Fields[k] : k \in DOMAIN Fields} \cup {"extra"}
Init == kind \in DOMAIN Base /\ d = Base[kind] /\ edits = {} /\ full \in {"all", "some", "none"}
Edit(f, v) == /\ f \in Fields[kind] \cup {"extra"} /\ f \notin edits
              /\ d' = Put(d, f, v) /\ edits' = edits \cup {f}
Drop(f) == f \in DOMAIN d /\ f \notin edits /\ d' = [x \in DOMAIN d \ {f} |-> d[x]] /\ edits' = edits \cup {f}
Next == /\ Cardinality(edits) < N /\ UNCHANGED <<kind, full>>
        /\ \E f \in Names : Drop(f) \/ \E v \in Pool : Edit(f, v)
Spec == Init /\ [][Next]_<<kind, d, edits, full>>
Emit == PrintT("GEN " \o ToJson([kind |-> kind, full |-> full, d |-> d]))
=============================================================================
