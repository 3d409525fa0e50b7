----------------------------- MODULE QueueDaemon -----------------------------
(* Elements handed over through a queue to one handling thread.            *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in 1..Len(q)}
(* before: element -> the elements that were in the queue for sure when it *)
(* was offered.  May x be the next one, after the elements in `handled`?   *)
InTurn(before, handled, x) == x \in DOMAIN before /\ x \notin handled /\ before[x] \subseteq handled
=============================================================================
