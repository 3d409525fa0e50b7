----------------------------- MODULE EmissionMC -----------------------------
EXTENDS Emission, FiniteSets
CONSTANTS Cap, MaxOps, Times, Mtus
VARIABLES S, out, log, ops, drops     \* out: frames of the last dispatch; log: changes not yet delivered
vars == <<S, out, log, ops, drops>>
B(b) == [k |-> "bool", b |-> b]
N(n) == IntV(FromInt(n, W))
Mk(i) == IF i = 1 THEN Channel("a", "boolean", 1024, TRUE, TRUE) ELSE Channel("b", "uint16", 0, TRUE, TRUE)
Init == /\ S = [Env(80, FALSE, <<0, 1>>) EXCEPT !.ch = <<Mk(1), Mk(2), Channel("c", "boolean", 2048, FALSE, TRUE)>>]
        /\ out = [data |-> <<>>, event |-> <<>>, ev |-> <<>>, due |-> {}] /\ log = <<>> /\ ops = 0 /\ drops = 0
Vals(i) == IF i = 2 THEN {N(0), N(3)} ELSE {B(TRUE), B(FALSE)}
Set(i, v, t) == /\ S' = Assign(S, i, v, t, Cap) /\ UNCHANGED out
                /\ LET changed == S.ch[i].tracked /\ S.ch[i].v # v IN
                   /\ log' = IF changed /\ Len(log) < Cap THEN Append(log, <<i, S.ch[i].v, v, t>>) ELSE log
                   /\ drops' = IF changed /\ Len(log) = Cap THEN drops + 1 ELSE drops
Dispatch(t) == /\ out' = [data |-> DataFrames(S, t), event |-> EventFrames(S, t), ev |-> S.q, due |-> DueSet(S, t)]
               /\ S' = AfterDispatch(S, t) /\ log' = <<>> /\ UNCHANGED drops
               /\ Assert([j \in 1..Len(S.q) |-> <<S.q[j].i, S.q[j].pv, S.q[j].v, S.q[j].t>>] = log, "events are the changes, in order")
Mtu(m) == S' = [S EXCEPT !.mtu = IF m < @ THEN m ELSE @] /\ UNCHANGED <<out, log, drops>>
Next == ops < MaxOps /\ ops' = ops + 1 /\
        (\/ \E i \in 1..3, t \in Times : \E v \in Vals(i) : Set(i, v, t)
         \/ \E t \in Times : Dispatch(t)
         \/ \E m \in Mtus : Mtu(m))
Spec == Init /\ [][Next]_vars
Sizes == \A f \in {out.data[i] : i \in 1..Len(out.data)} \cup {out.event[i] : i \in 1..Len(out.event)} : Used(f) <= f.mtu /\ f.n > 0
RECURSIVE Sum(_, _)
Sum(fs, i) == IF i = 0 THEN 0 ELSE fs[i].n + Sum(fs, i - 1)
OnceEach == Sum(out.data, Len(out.data)) = Cardinality(out.due) /\ Sum(out.event, Len(out.event)) = Len(out.ev)
Chained == \A i \in 1..Len(S.q), j \in 1..Len(S.q) :
   (i < j /\ S.q[i].i = S.q[j].i /\ drops = 0 /\ \A k \in (i + 1)..(j - 1) : S.q[k].i # S.q[i].i) => S.q[j].pv = S.q[i].v
Bounded == Len(S.q) <= Cap
EmittedAt == \A i \in 1..Len(S.ch) : S.ch[i].emitted \in {0} \cup Times
=============================================================================
