------------------------------ MODULE GroupMC ------------------------------
(* Writers and readers that go channel by channel, under one lock.         *)
EXTENDS Group, TLC
CONSTANTS Threads, Channels, MaxOps
VARIABLES v, lock, pc, val, left, got, ops, whole
vars == <<v, lock, pc, val, left, got, ops, whole>>
(* whole: every state there has been between writes *)
Init == /\ v = [c \in Channels |-> 0] /\ lock = "free" /\ pc = [t \in Threads |-> "rest"] /\ val = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> {}] /\ got = [t \in Threads |-> [c \in {} |-> 0]] /\ ops = 0 /\ whole = {v}
Begin(t) == /\ pc[t] = "rest" /\ ops < MaxOps /\ lock = "free" /\ lock' = t /\ ops' = ops + 1
            /\ \E w \in {"write", "read"} : pc' = [pc EXCEPT ![t] = w]
            /\ val' = [val EXCEPT ![t] = ops + 1] /\ left' = [left EXCEPT ![t] = Channels] /\ got' = [got EXCEPT ![t] = [c \in {} |-> 0]]
            /\ UNCHANGED <<v, whole>>
Step(t) == /\ pc[t] \in {"write", "read"} /\ left[t] # {}
           /\ \E c \in left[t] :
                /\ left' = [left EXCEPT ![t] = @ \ {c}]
                /\ IF pc[t] = "write" THEN v' = [v EXCEPT ![c] = val[t]] /\ UNCHANGED got
                   ELSE got' = [got EXCEPT ![t] = [x \in DOMAIN @ \cup {c} |-> IF x = c THEN v[c] ELSE @[x]]] /\ UNCHANGED v
           /\ UNCHANGED <<lock, pc, val, ops, whole>>
Done(t) == /\ pc[t] \in {"write", "read"} /\ left[t] = {} /\ lock' = "free"
           /\ pc' = [pc EXCEPT ![t] = IF @ = "read" THEN "judge" ELSE "rest"]
           /\ whole' = IF pc[t] = "write" THEN whole \cup {v} ELSE whole
           /\ UNCHANGED <<v, val, left, got, ops>>
Judged(t) == pc[t] = "judge" /\ pc' = [pc EXCEPT ![t] = "rest"] /\ UNCHANGED <<v, lock, val, left, got, ops, whole>>
Next == \E t \in Threads : Begin(t) \/ Step(t) \/ Done(t) \/ Judged(t)
Spec == Init /\ [][Next]_vars
NoMixture == \A t \in Threads : pc[t] = "judge" => got[t] \in whole
Mutex == Cardinality({t \in Threads : pc[t] \in {"write", "read"}}) <= 1
=============================================================================
