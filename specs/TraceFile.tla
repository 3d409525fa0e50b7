------------------------------ MODULE TraceFile ------------------------------
(* A file client: the file's bytes, the limit, and what each run delivered.  *)
EXTENDS Codec, TraceBase
VARIABLES tid, l, F, pos, count, limit, lost
vars == <<tid, l, F, pos, count, limit, lost>>
T == Traces[tid]
E == T.ev[l]
Mtu == T.cfg.mtu
Init == tid \in 1..Len(Traces) /\ l = 1 /\ F = <<>> /\ pos = 0 /\ count = 0 /\ limit = -1 /\ lost = FALSE

(* the complete frames from p on that can be decoded, each with the position after it *)
TooBig(p) == LET s == Slice(F, p, 4) IN ~Small(s) \/ ToInt(Slice(s, 2, 2)) > Mtu
RECURSIVE Scan(_, _)
Scan(p, acc) ==
  IF Len(F) - p < 4 THEN [fs |-> acc, big |-> FALSE]
  ELSE IF TooBig(p) THEN [fs |-> acc, big |-> TRUE]
  ELSE LET n == ToInt(Slice(F, p + 2, 2)) b == Slice(F, p + 4, n) r == Decode(b, T.cfg.reg, T.cfg.app) IN
       IF Len(F) - p - 4 < n THEN [fs |-> acc, big |-> FALSE]
       ELSE Scan(p + 4 + n, IF r.none \/ b[3] = 0 THEN acc ELSE Append(acc, [b |-> b, r |-> r, after |-> p + 4 + n]))
Least(a, b) == IF a < b THEN a ELSE b
Equal(good, n) == \A i \in 1..n : Agrees(good[i].b, T.cfg.reg, good[i].r, E.out[i])
(* after an oversized prefix: only genuine frames, in order *)
RECURSIVE Sub(_, _)
Sub(o, g) == IF o > Len(E.out) THEN TRUE ELSE IF g > Len(T.cfg.later) THEN FALSE
             ELSE IF Agrees(T.cfg.later[g], T.cfg.reg, Decode(T.cfg.later[g], T.cfg.reg, T.cfg.app), E.out[o]) THEN Sub(o + 1, g + 1)
             ELSE Sub(o, g + 1)
S == Scan(pos, <<>>)
Room == IF limit = -1 THEN Len(S.fs) ELSE Least(Len(S.fs), limit - count)
Before == IF lost THEN <<>> ELSE S.fs
RunWhy ==
  IF lost \/ S.big
  THEN IF Len(E.out) < Len(Before) \/ ~Equal(Before, Len(Before)) THEN "the frames before the damage are delivered"
       ELSE IF ~Sub(Len(Before) + 1, 1) THEN "something that was not recorded was delivered"
       ELSE IF ~E.eof \/ E.at # Len(F) THEN "the replay ends at the end of the file" ELSE ""
  ELSE IF Len(E.out) > Room THEN "more frames than there are, or than the limit"
  ELSE IF ~Equal(S.fs, Len(E.out)) THEN "a frame was altered, skipped or repeated"
  ELSE IF ~E.stopped /\ Len(E.out) < Room THEN "a frame was not delivered"
  ELSE IF E.eof /\ Len(E.out) < Len(S.fs) THEN "the end is reported before the last frame"
  ELSE IF E.eof /\ E.at # Len(F) THEN "the number of bytes processed"
  ELSE IF ~E.stopped /\ ~E.eof /\ (limit = -1 \/ count + Len(E.out) < limit) THEN "the end of the replay is not reported"
  ELSE IF E.count # count + Len(E.out) THEN "the number of frames processed"
  ELSE IF E.at > Len(F) \/ (Len(E.out) > 0 /\ E.at < S.fs[Len(E.out)].after) THEN "the number of bytes processed"
  ELSE ""
Why == CASE E.op = "run" -> RunWhy
         [] E.op \in {"file", "limit", "end"} -> ""
         [] OTHER -> "unexpected event"
Next == /\ l <= Len(T.ev)
        /\ IF Why # "" THEN PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
           ELSE /\ UNCHANGED tid /\ l' = l + 1 /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
                /\ F' = IF E.op = "file" THEN F \o E.bytes ELSE F
                /\ limit' = IF E.op = "limit" THEN E.n ELSE limit
                /\ IF E.op = "run" THEN /\ count' = count + Len(E.out) /\ lost' = (lost \/ S.big)
                                        /\ pos' = IF Len(E.out) > 0 /\ ~lost /\ ~S.big THEN S.fs[Len(E.out)].after ELSE pos
                   ELSE UNCHANGED <<count, lost, pos>>
Spec == Init /\ [][Next]_vars
=============================================================================
