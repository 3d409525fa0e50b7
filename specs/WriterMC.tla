------------------------------ MODULE WriterMC ------------------------------
(* A writer that takes a snapshot of the outputs for each frame, writes to *)
(* each, and detaches those that failed; users attach and detach.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Outputs, Frames
VARIABLES cur, pc, att, todo, bad, got, failed, handled, removed, live
vars == <<cur, pc, att, todo, bad, got, failed, handled, removed, live>>
(* live: attached from the moment the current frame was taken until now *)
Init == /\ cur = 0 /\ pc = "rest" /\ att = {} /\ todo = {} /\ bad = {} /\ got = [o \in Outputs |-> <<>>]
        /\ failed = {} /\ handled = [o \in Outputs |-> 0] /\ removed = [o \in Outputs |-> 0] /\ live = {}
Attach(o) == /\ o \notin att /\ removed[o] = 0 /\ handled[o] = 0 /\ o \notin failed /\ att' = att \cup {o}
             /\ UNCHANGED <<cur, pc, todo, bad, got, failed, handled, removed, live>>
Detach(o) == /\ o \in att /\ att' = att \ {o} /\ live' = live \ {o} /\ removed' = [removed EXCEPT ![o] = @ + 1]
             /\ UNCHANGED <<cur, pc, todo, bad, got, failed, handled>>
Take == /\ pc = "rest" /\ cur < Frames /\ cur' = cur + 1 /\ pc' = "snap" /\ live' = att
        /\ UNCHANGED <<att, todo, bad, got, failed, handled, removed>>
Snap == /\ pc = "snap" /\ todo' = att /\ bad' = {} /\ pc' = "write" /\ UNCHANGED <<cur, att, got, failed, handled, removed, live>>
Write(o) == /\ pc = "write" /\ o \in todo /\ todo' = todo \ {o}
            /\ \/ got' = [got EXCEPT ![o] = Append(@, cur)] /\ UNCHANGED <<bad, failed>>
               \/ bad' = bad \cup {o} /\ failed' = failed \cup {o} /\ UNCHANGED got
            /\ UNCHANGED <<cur, pc, att, handled, removed, live>>
Written == pc = "write" /\ todo = {} /\ pc' = "clean" /\ UNCHANGED <<cur, att, todo, bad, got, failed, handled, removed, live>>
Clean(o) == /\ pc = "clean" /\ o \in bad /\ bad' = bad \ {o}
            /\ IF o \in att THEN att' = att \ {o} /\ handled' = [handled EXCEPT ![o] = @ + 1] ELSE UNCHANGED <<att, handled>>
            /\ UNCHANGED <<cur, pc, todo, got, failed, removed, live>>
Done == pc = "clean" /\ bad = {} /\ pc' = "rest" /\ UNCHANGED <<cur, att, todo, bad, got, failed, handled, removed, live>>
Quiet == cur = Frames /\ pc = "rest" /\ UNCHANGED vars
Next == Take \/ Snap \/ Written \/ Done \/ Quiet \/ \E o \in Outputs : Attach(o) \/ Detach(o) \/ Write(o) \/ Clean(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Snap) /\ WF_vars(Written) /\ WF_vars(Done)
        /\ \A o \in Outputs : WF_vars(Write(o)) /\ WF_vars(Clean(o))
InOrder == \A o \in Outputs : \A i, j \in 1..Len(got[o]) : i < j => got[o][i] < got[o][j]
NoGaps == \A o \in Outputs : \A i \in 1..(Len(got[o]) - 1) : got[o][i + 1] = got[o][i] + 1
Complete == (pc = "rest" /\ cur > 0) => \A o \in live \ failed : got[o] # <<>> /\ got[o][Len(got[o])] = cur
OnceGone == \A o \in Outputs : removed[o] + handled[o] <= 1
Reported == (pc = "rest") => \A o \in failed : removed[o] + handled[o] = 1
SilentAfter == [][\A o \in Outputs : (o \in failed \/ (o \notin att /\ pc = "rest")) => got'[o] = got[o]]_vars
AllTaken == <>(cur = Frames /\ pc = "rest")
=============================================================================
