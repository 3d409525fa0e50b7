------------------------------ MODULE Command ------------------------------
(* A queue of commands served by one thread: what each handler does, what *)
(* the submitter of a command is told.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* what a handler of each kind reports for command c; a raise or a malformed result is a failure with some message *)
Succeeds(kind) == kind = "ok"
Message(h, c) == h.msg \o ":" \o ToString(c)
Outcome(h, c, ok, told) == ok = Succeeds(h.kind) /\ IF h.kind \in {"ok", "fail"} THEN told = Message(h, c) ELSE told # ""
Range(s) == {s[i] : i \in 1..Len(s)}
(* served in the order of submission: everything submitted completely before x was offered is finished *)
InTurn(before, finished, x) == before[x] \subseteq finished
=============================================================================
