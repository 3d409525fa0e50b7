------------------------------- MODULE Serdes -------------------------------
(* Describable objects: which descriptions their schemas accept, and what   *)
(* becomes of a description that is encoded and decoded.                    *)
(* A value is [t, c, m]: its JSON type, the codes of a text, the entries of *)
(* a map ([kt, kc, vt, vc]: type and text of key and value; an integer is   *)
(* its text).  A description is a function from field names to values.      *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in 1..Len(s)}
(* texts of one or more small letters, digits and underscores *)
NameCode(x) == (x >= 97 /\ x <= 122) \/ (x >= 48 /\ x <= 57) \/ x = 95
IsName(c) == c # <<>> /\ \A i \in 1..Len(c) : NameCode(c[i])
Lower(c) == [i \in 1..Len(c) |-> IF c[i] >= 65 /\ c[i] <= 90 THEN c[i] + 32 ELSE c[i]]
IsInt(c) == c # <<>> /\ \A i \in 1..Len(c) : (c[i] >= 48 /\ c[i] <= 57) \/ (i = 1 /\ Len(c) > 1 /\ c[i] = 45)
IntKey(e) == e.kt = "int" \/ (e.kt = "str" /\ IsInt(e.kc))
Has(d, f) == f \in DOMAIN d
Type(d, f) == IF Has(d, f) THEN d[f].t ELSE "absent"
KeyNames(d, f) == IF Type(d, f) = "map" THEN {e.kc : e \in Range(d[f].m)} ELSE {}

(* the type each kind of description names itself by *)
TypeName == [user_enum |-> <<117,115,101,114,95,101,110,117,109>>,
             enum_registry |-> <<101,110,117,109,95,114,101,103,105,115,116,114,121>>,
             serializable_primitive |-> <<115,101,114,105,97,108,105,122,97,98,108,101,95,112,114,105,109,105,116,105,118,101>>]
Fields == [user_enum |-> {"default", "mappings", "name", "type"}, enum_registry |-> {"enums", "mappings", "type"},
           serializable_primitive |-> {"integer", "max", "min", "name", "signed", "size", "type"}]
Optional == [user_enum |-> {}, enum_registry |-> {}, serializable_primitive |-> {"max", "min"}]
MapOf(d, f, key, val) == Type(d, f) = "map" /\ \A e \in Range(d[f].m) : e.kt = key /\ e.vt = val
FieldOk(kind, d, f) ==
  CASE f = "type" -> d[f].t = "str" /\ d[f].c = TypeName[kind]
    [] f = "default" -> d[f].t = "str"
    [] f = "name" -> d[f].t = "str" /\ (kind = "user_enum" => IsName(d[f].c))
    [] f = "mappings" -> MapOf(d, f, "int", "str") /\ (kind = "user_enum" => \A e \in Range(d[f].m) : IsName(e.vc))
    [] f = "enums" -> MapOf(d, f, "str", "map")
    [] f \in {"integer", "signed"} -> d[f].t = "bool"
    [] OTHER -> d[f].t \in {"int", "bool"} (* a truth value is an integer, too *)
(* does the schema of this kind (with all fields required, or only those present checked) accept the description? *)
Accepts(kind, d, all) == /\ DOMAIN d \subseteq Fields[kind]
                         /\ all => Fields[kind] \ Optional[kind] \subseteq DOMAIN d
                         /\ \A f \in DOMAIN d : FieldOk(kind, d, f)

Text(c) == [t |-> "str", c |-> c, m |-> <<>>]
Map(m) == [t |-> "map", c |-> <<>>, m |-> m]
Put(d, f, v) == [x \in (DOMAIN d) \cup {f} |-> IF x = f THEN v ELSE d[x]]
IntKeys(m) == [i \in 1..Len(m) |-> [m[i] EXCEPT !.kt = "int"]]
CanMap(d) == Type(d, "mappings") = "absent" \/ (Type(d, "mappings") = "map" /\ \A e \in Range(d["mappings"].m) : IntKey(e))
Typed(kind, d) == IF Has(d, "type") THEN d ELSE Put(d, "type", Text(TypeName[kind]))
Mapped(d) == Put(d, "mappings", Map(IF Has(d, "mappings") THEN IntKeys(d["mappings"].m) ELSE <<>>))
LowerAll(m) == [i \in 1..Len(m) |-> [m[i] EXCEPT !.vc = Lower(@)]]
(* may an object be built from the description at all? *)
Buildable(kind, d) ==
  CASE kind = "user_enum" ->
         /\ CanMap(d) /\ Has(d, "default")
         /\ LET m == Mapped(d)["mappings"].m IN
            /\ \A i \in 1..Len(m) : m[i].vt = "str"
            /\ \A i, j \in 1..Len(m) : i # j => Lower(m[i].vc) # Lower(m[j].vc)
            /\ d["default"].t = "null" => m # <<>>
    [] kind = "enum_registry" -> /\ CanMap(d) /\ Type(d, "enums") \in {"absent", "map"}
                                 /\ \A e \in Range(Mapped(d)["mappings"].m) :
                                      e.vt = "str" /\ (KeyNames(d, "enums") = {} \/ e.vc \in KeyNames(d, "enums"))
                                 /\ (Type(d, "enums") = "map" => \A e \in Range(d["enums"].m) : e.vt = "map")
    [] OTHER -> TRUE
(* the description that the object then has *)
Built(kind, d) ==
  LET x == Typed(kind, d) IN
  CASE kind = "user_enum" -> LET y == Mapped(x) IN LET m == LowerAll(y["mappings"].m) IN
                             LET z == Put(y, "mappings", Map(m)) IN
                             IF z["default"].t = "null" THEN Put(z, "default", Text(m[1].vc)) ELSE z
    [] kind = "enum_registry" -> LET y == Mapped(x) IN IF Has(y, "enums") THEN y ELSE Put(y, "enums", Map(<<>>))
    [] OTHER -> x
(* the same, whatever the order of the entries of a map *)
SameValue(a, b) == a.t = b.t /\ a.c = b.c /\ Range(a.m) = Range(b.m) /\ Len(a.m) = Len(b.m)
Same(d1, d2) == DOMAIN d1 = DOMAIN d2 /\ \A f \in DOMAIN d1 : SameValue(d1[f], d2[f])
(* as text: keys become strings; order is arbitrary *)
Encode(d) == [f \in DOMAIN d |-> [d[f] EXCEPT !.m = [i \in 1..Len(@) |-> [@[i] EXCEPT !.kt = "str"]]]]
=============================================================================
