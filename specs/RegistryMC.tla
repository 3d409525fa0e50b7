---------------------------- MODULE RegistryMC ----------------------------
(* Design: threads register and look up; ids are unique, stable, dense.    *)
EXTENDS Registry, FiniteSets, TLC
CONSTANTS Names, Items, Threads, MaxAdds
VARIABLES r, told, adds      \* told: answers given so far <<name, id>>
vars == <<r, told, adds>>

Init == r = Empty /\ told = {} /\ adds = 0
Register(t, n, x) == /\ adds < MaxAdds /\ adds' = adds + 1
                     /\ r' = Add(r, n, x)
                     /\ told' = IF AddOk(r, n) THEN told \cup {<<n, AddId(r, n)>>} ELSE told
LookUp(t, n) == /\ told' = IF Known(r, n) THEN told \cup {<<n, IdOf(r, n)>>} ELSE told
                /\ UNCHANGED <<r, adds>>
Next == \E t \in Threads, n \in Names : LookUp(t, n) \/ \E x \in Items : Register(t, n, x)
Spec == Init /\ [][Next]_vars

Unique == \A i, j \in 1..Len(r.names) : r.names[i] = r.names[j] => i = j
Dense == \A i \in 0..(Count(r) - 1) : Holds(r, i) /\ IdOf(r, r.names[i + 1]) = i
Inverse == \A n \in Names : Known(r, n) => r.names[IdOf(r, n) + 1] = n
Stable == \A a \in told : IdOf(r, a[1]) = a[2]
Injective == \A a, b \in told : (a[1] = b[1]) <=> (a[2] = b[2])
GrowsOnly == [][\A n \in Names : Known(r, n) => IdOf(r', n) = IdOf(r, n)
                                  /\ ItemOf(r', IdOf(r, n)) = ItemOf(r, IdOf(r, n))]_vars
LookUpPure == [][adds' = adds => r' = r]_vars
=============================================================================
