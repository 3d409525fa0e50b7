---------------------------- MODULE StateMachine ----------------------------
(* A run of the machine: step, leave, enter - with the verdicts of the     *)
(* callbacks.  What a run that is in `cur` and is told to go `to` does.    *)
EXTENDS Integers, Sequences, FiniteSets
Merge(d, new) == [k \in DOMAIN d |-> IF new[k] >= 0 THEN new[k] ELSE d[k]]
(* the phases still to come: after the step, after leaving *)
AfterStep(states, cur, to) == IF to = cur THEN "done" ELSE IF to \notin states THEN "failed" ELSE "leave"
AfterLeave(ok) == IF ok THEN "enter" ELSE "done"
Ends(cur, to, left, entered) == IF left /\ entered THEN to ELSE cur
=============================================================================
