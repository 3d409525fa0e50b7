------------------------------ MODULE MessageMC ------------------------------
(* Design: two messages of one type and one of another, of one to three     *)
(* fragments; fragments arrive in any order, repeatedly or never; the cache *)
(* is saved, cleaned, reloaded, and stopped in the middle of receiving.     *)
EXTENDS Message
CONSTANTS MaxSteps, Restarts
VARIABLES cache, disk, arrived, told, steps
vars == <<cache, disk, arrived, told, steps>>
S == Sender(32, TRUE, <<0, 1>>)                       \* two bytes a fragment
Msgs == <<[ty |-> 1, b |-> <<1, 2, 3, 4>>], [ty |-> 1, b |-> <<5, 6, 7, 8, 9>>], [ty |-> 0, b |-> <<>>]>>
Frag(m, i) == [mtype |-> Msgs[m].ty, crc |-> <<m>>, number |-> m, index |-> i, total |-> Total(S, Len(Msgs[m].b)), data |-> Piece(S, Msgs[m].b, i)]
Frags == UNION {{Frag(m, i) : i \in 0..(Total(S, Len(Msgs[m].b)) - 1)} : m \in 1..Len(Msgs)}
KeyOf(m) == <<Msgs[m].ty, <<m>>>>
Init == cache = <<>> /\ disk = EmptyDisk /\ arrived = {} /\ told = [m \in 1..Len(Msgs) |-> 0] /\ steps = 0
Receive(f) == /\ cache' = Ingest(cache, f) /\ disk' = Persist(cache, disk, f) /\ arrived' = arrived \cup {f}
              /\ told' = IF Completes(cache, f) THEN [told EXCEPT ![f.number] = @ + 1] ELSE told
Stop(f, kept) ==
              /\ Restarts
              /\ disk' = IF kept THEN Persist(cache, disk, f) ELSE disk
              /\ cache' = Load(disk') /\ UNCHANGED told
              /\ arrived' = {g \in Frags : Key(g) \in DOMAIN cache' /\ HasPart(cache'[Key(g)], g.index)}
Saves == Restarts /\ disk' = Save(cache, disk) /\ UNCHANGED <<cache, arrived, told>>
Clean == Restarts /\ disk' = EmptyDisk /\ cache' = <<>> /\ arrived' = {} /\ told' = [m \in 1..Len(Msgs) |-> 0]
Reload == /\ Restarts /\ cache' = Load(disk) /\ UNCHANGED <<disk, arrived, told>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\
  (Saves \/ Clean \/ Reload \/ \E f \in Frags : Receive(f) \/ Stop(f, TRUE) \/ Stop(f, FALSE))
Spec == Init /\ [][Next]_vars
All(m) == \A i \in 0..(Total(S, Len(Msgs[m].b)) - 1) : Frag(m, i) \in arrived
(* a message is offered only when all of it has arrived, and then exactly as it was sent *)
Sound == \A m \in 1..Len(Msgs) : Of(cache, KeyOf(m)).complete =>
             (All(m) /\ Bytes(cache[KeyOf(m)]) = Msgs[m].b /\ cache[KeyOf(m)].number = m)
(* without restarts it is offered as soon as that is so, and reported once *)
Prompt == ~Restarts => \A m \in 1..Len(Msgs) :
             (Of(cache, KeyOf(m)).complete <=> All(m)) /\ told[m] = IF All(m) THEN 1 ELSE 0
(* a fragment that isn't stored is still waited for *)
NothingLost == \A f \in Frags : f \in arrived => (Key(f) \in DOMAIN cache /\ HasPart(cache[Key(f)], f.index) /\ cache[Key(f)].parts[f.index] = f.data)
(* whatever is missing can still arrive *)
Recoverable == \A m \in 1..Len(Msgs) :
   LET c == FoldLeft(LAMBDA acc, i : Ingest(acc, Frag(m, i - 1)), cache, [i \in 1..Total(S, Len(Msgs[m].b)) |-> i])
   IN c[KeyOf(m)].complete /\ Bytes(c[KeyOf(m)]) = Msgs[m].b
(* saving and loading change nothing *)
Faithful == \A k \in DOMAIN cache : Load(Save(cache, disk))[k] = cache[k]
(* the fragments respect the size limit and carry the message *)
ASSUME \A m \in 1..Len(Msgs) : LET n == Total(S, Len(Msgs[m].b)) IN
   /\ Cat([i \in 1..n |-> Piece(S, Msgs[m].b, i - 1)]) = Msgs[m].b
   /\ \A i \in 0..(n - 1) : Len(FragmentWire(S, 1, Msgs[m].b, <<0, 0, 0, 0>>, Zeros(8), i)) <= S.mtu
=============================================================================
