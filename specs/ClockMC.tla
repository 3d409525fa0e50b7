------------------------------ MODULE ClockMC ------------------------------
(* Threads that update, scale, force and distribute the time, and add      *)
(* consumers, step by step, under the keeper's lock.                       *)
EXTENDS Clock, TLC
CONSTANTS Threads, Consumers, Scales, MaxNow, MaxOps
VARIABLES now, k, lock, pc, reg, cur, todo, has, ops, base
(* reg: registered consumers; todo[t]: those still to be told; cur[t]: the *)
(* time they are told; has: what consumers report; base: what the shared   *)
(* time should be, up to the latest update                                 *)
vars == <<now, k, lock, pc, reg, cur, todo, has, ops, base>>
One == [n |-> 1, d |-> 1]
Init == /\ now = 0 /\ k = [t |-> 0, last |-> 0, s |-> One] /\ lock = "free" /\ pc = [t \in Threads |-> "rest"] /\ reg = {}
        /\ cur = [t \in Threads |-> 0] /\ todo = [t \in Threads |-> {}] /\ has = [c \in Consumers |-> -1] /\ ops = 0 /\ base = 0
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<k, lock, pc, reg, cur, todo, has, ops, base>>
Op(t) == pc[t] = "rest" /\ ops < MaxOps /\ ops' = ops + 1
Update(t) == /\ Op(t) /\ lock = "free"
             /\ k' = Updated(k, now) /\ base' = base + (now - k.last) * k.s.n
             /\ pc' = [pc EXCEPT ![t] = "tell"] /\ UNCHANGED <<now, lock, reg, cur, todo, has>>
Distribute(t) == /\ Op(t) /\ pc' = [pc EXCEPT ![t] = "tell"] /\ UNCHANGED <<now, k, lock, reg, cur, todo, has, base>>
Tell(t) == /\ pc[t] = "tell" /\ lock = "free" /\ lock' = t /\ cur' = [cur EXCEPT ![t] = k.t] /\ todo' = [todo EXCEPT ![t] = reg]
           /\ pc' = [pc EXCEPT ![t] = "telling"] /\ UNCHANGED <<now, k, reg, has, ops, base>>
One1(t) == /\ pc[t] = "telling"
           /\ IF todo[t] = {} THEN lock' = "free" /\ pc' = [pc EXCEPT ![t] = "rest"] /\ UNCHANGED <<todo, has>>
              ELSE \E c \in todo[t] : /\ has' = [has EXCEPT ![c] = cur[t]] /\ todo' = [todo EXCEPT ![t] = @ \ {c}] /\ UNCHANGED <<lock, pc>>
           /\ UNCHANGED <<now, k, reg, cur, ops, base>>
Add(t) == /\ Op(t) /\ lock = "free" /\ \E c \in Consumers \ reg : reg' = reg \cup {c} /\ has' = [has EXCEPT ![c] = k.t]
          /\ UNCHANGED <<now, k, lock, pc, cur, todo, base>>
Scale(t) == /\ Op(t) /\ lock = "free" /\ \E s \in Scales : k' = Scaled(k, [n |-> s, d |-> 1])
            /\ UNCHANGED <<now, lock, pc, reg, cur, todo, has, base>>
Rest == ops = MaxOps /\ (\A t \in Threads : pc[t] = "rest") /\ UNCHANGED vars
Next == Tick \/ Rest \/ \E t \in Threads : Update(t) \/ Distribute(t) \/ Tell(t) \/ One1(t) \/ Add(t) \/ Scale(t)
Spec == Init /\ [][Next]_vars
NoneLost == k.t = base
Quiet == \A t \in Threads : pc[t] = "rest"
Agree == Quiet => \A c \in reg : has[c] = k.t
Forward == [][\A c \in Consumers : has'[c] >= has[c]]_vars
=============================================================================
