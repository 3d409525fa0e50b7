----------------------------- MODULE TraceClient -----------------------------
(* A client: what it was fed and what it delivered for it.                  *)
EXTENDS Codec, TraceBase
VARIABLES tid, l
T == Traces[tid]
E == T.ev[l]
R == Decode(E.bytes, T.cfg.reg, T.cfg.app)
Init == tid \in 1..Len(Traces) /\ l = 1
Why == CASE E.op = "frame" ->
              IF R.none THEN (IF E.out = <<>> THEN "" ELSE "a frame that must not be delivered was delivered")
              ELSE IF E.bytes[3] = 0 /\ E.out = <<>> THEN ""       \* frames of the invalid type may be dropped
              ELSE IF Len(E.out) # 1 THEN "a valid frame is delivered exactly once"
              ELSE IF Agrees(E.bytes, T.cfg.reg, R, E.out[1]) THEN "" ELSE "a frame was delivered altered"
         [] E.op = "end" -> ""
         [] OTHER -> "unexpected event"
Next == /\ l <= Len(T.ev)
        /\ IF Why = "" THEN l' = l + 1 /\ UNCHANGED tid /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
