----------------------------- MODULE Registry -----------------------------
(* A registry: names in registration order; the identifier of a name is    *)
(* its position (from 0).  Items are opaque.                               *)
EXTENDS Integers, Sequences

Empty == [names |-> <<>>, items |-> <<>>]
Known(r, n) == \E i \in 1..Len(r.names) : r.names[i] = n
IdOf(r, n) == IF Known(r, n) THEN (CHOOSE i \in 1..Len(r.names) : r.names[i] = n) - 1 ELSE -1
Holds(r, i) == i >= 0 /\ i < Len(r.names)
ItemOf(r, i) == r.items[i + 1]
Count(r) == Len(r.names)

(* registering: accepted exactly when the name is new *)
AddOk(r, n) == ~Known(r, n)
Add(r, n, x) == IF AddOk(r, n)
                THEN [names |-> Append(r.names, n), items |-> Append(r.items, x)] ELSE r
AddId(r, n) == IF AddOk(r, n) THEN Len(r.names) ELSE -1
=============================================================================
