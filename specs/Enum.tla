------------------------------- MODULE Enum -------------------------------
(* Enumerations: a two-way mapping between values and names.  A name is a  *)
(* sequence of character codes; letters count without their case.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]

(* members: a sequence of [v |-> value, n |-> name] *)
Distinct(ms) == \A i, j \in 1..Len(ms) : i # j => ms[i].v # ms[j].v /\ Lower(ms[i].n) # Lower(ms[j].n)
MakeOk(ms) == ms # <<>> /\ Distinct(ms)
Make(ms, d) == [m |-> [i \in 1..Len(ms) |-> [v |-> ms[i].v, n |-> Lower(ms[i].n)]],
                d |-> IF d = <<>> THEN Lower(ms[1].n) ELSE d]

NamesOf(e) == [i \in 1..Len(e.m) |-> e.m[i].n]
HasName(e, n) == \E i \in 1..Len(e.m) : e.m[i].n = Lower(n)
ValueOf(e, n) == e.m[CHOOSE i \in 1..Len(e.m) : e.m[i].n = Lower(n)].v
HasValue(e, v) == \E i \in 1..Len(e.m) : e.m[i].v = v
NameOf(e, v) == e.m[CHOOSE i \in 1..Len(e.m) : e.m[i].v = v].n
Same(a, b) == Range(a.m) = Range(b.m) /\ a.d = b.d

(* an enumeration channel holds one of 256 values *)
CanHold(v) == v >= 0 /\ v <= 255

(* registered enumerations: a sequence of [name, e]; reserved names (those *)
(* of the primitive types) can't be exported and are refused               *)
RegKnown(g, n) == \E i \in 1..Len(g) : g[i].name = n
RegId(g, n) == (CHOOSE i \in 1..Len(g) : g[i].name = n) - 1
RegAdd(g, n, e) == IF RegKnown(g, n) THEN g ELSE Append(g, [name |-> n, e |-> e])
=============================================================================
