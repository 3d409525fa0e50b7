------------------------------- MODULE HttpMC -------------------------------
(* Registrations and requests in any order, from several clients: requests *)
(* are looked up and then answered, and don't change the table.  Sticky:   *)
(* the defect of a table that remembers what was looked up.                *)
EXTENDS Http, TLC
CONSTANTS Clients, Paths, MaxAdds, Sticky
VARIABLES table, entries, adds, client, last
vars == <<table, entries, adds, client, last>>
Idle == [pc |-> "idle", m |-> "", p |-> "", h |-> 0, was |-> {}]
Pairs == Methods \X Paths
Init == table = [k \in {} |-> 0] /\ entries = {} /\ adds = 0 /\ client = [c \in Clients |-> Idle] /\ last = [s |-> 0]
Add == /\ adds < MaxAdds
       /\ \E k \in Pairs : table' = Registered(table, k[1], k[2], adds + 1) /\ entries' = entries \cup {k}
       /\ adds' = adds + 1 /\ UNCHANGED <<client, last>>
Ask(c) == /\ client[c].pc = "idle"
          /\ \E m \in {"GET", "HEAD", "POST", "PUT"}, p \in Paths :
               /\ client' = [client EXCEPT ![c] = [pc |-> "asked", m |-> m, p |-> p, h |-> Handler(table, m, p), was |-> {Handler(table, m, p)}]]
               /\ entries' = IF Sticky /\ Method(m) \in Methods THEN entries \cup {<<Method(m), p>>} ELSE entries
          /\ UNCHANGED <<table, adds, last>>
Answer(c, ok) == /\ client[c].pc = "asked"
             /\ last' = [s |-> IF Method(client[c].m) \notin Methods THEN Unsupported
                               ELSE IF client[c].h = 0 THEN NotFound ELSE IF ok THEN OK ELSE Failed,
                         m |-> client[c].m, h |-> client[c].h]
             /\ client' = [client EXCEPT ![c] = Idle] /\ UNCHANGED <<table, entries, adds>>
Next == Add \/ \E c \in Clients : Ask(c) \/ \E ok \in BOOLEAN : Answer(c, ok)
Spec == Init /\ [][Next]_vars
IndexExact == entries = DOMAIN table
StatusRight == last.s # 0 => /\ (last.s = Unsupported) = (last.m = "PUT")
                             /\ last.s \in {OK, Failed} => last.h # 0
                             /\ last.s = NotFound => last.h = 0
ASSUME Params(<<[k |-> "a", v |-> "1"], [k |-> "b", v |-> ""], [k |-> "a", v |-> "2"]>>) = [a |-> <<"1", "2">>, b |-> <<"">>]
ASSUME Encoded(<<65, 228, 8364, 128512>>) = <<65, 195, 164, 226, 130, 172, 240, 159, 152, 128>>
ASSUME Contains(<<1, 2, 3>>, <<2, 3>>) /\ ~Contains(<<1, 2, 3>>, <<3, 2>>) /\ Contains(<<1>>, <<>>)
=============================================================================
