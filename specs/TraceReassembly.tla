-------------------------- MODULE TraceReassembly --------------------------
EXTENDS Reassembly, TraceBase
VARIABLES tid, l, st

T == Traces[tid]
E == T.ev[l]

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Fresh

Fed == Feed(st, E.bytes, T.cfg.mtu)
Why == CASE E.op = "data" -> IF E.out = Fed.out THEN "" ELSE "frames delivered by this chunk"
         [] E.op \in {"new", "end"} -> ""
         [] OTHER -> "unexpected event"

Next == /\ l <= Len(T.ev)
        /\ IF Why = ""
           THEN /\ st' = IF E.op = "data" THEN Fed.st ELSE IF E.op = "new" THEN Fresh ELSE st
                /\ l' = l + 1 /\ UNCHANGED tid
                /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
