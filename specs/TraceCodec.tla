----------------------------- MODULE TraceCodec -----------------------------
(* A framer making data and event frames, and a decoder with the registry  *)
(* cfg.reg.                                                                *)
EXTENDS Codec, TraceBase
VARIABLES tid, l, app, last, f, wire
vars == <<tid, l, app, last, f, wire>>
T == Traces[tid]
E == T.ev[l]
Reg == T.cfg.reg
KindNo == IF E.kind = "data" THEN 1 ELSE 2
AppOf(num, den) == FromInt(IF num <= den THEN (65535 * num) \div den ELSE (65535 * den) \div num, 2)
TsNow == IF E.timed THEN Millis(E.time) ELSE last[E.kind]
Fresh == NewFrame(E.mtu, E.crc, app, KindNo, TsNow)
Item == IF E.op = "add" THEN Encode(Reg[E.id + 1].type, E.v)
        ELSE EventContent(Reg[E.id + 1].type, E.pv, E.pt, E.v, E.t)
Sized == FromInt(Len(wire), 4)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ app = <<>> /\ last = [data |-> Zeros(8), event |-> Zeros(8)]
        /\ f = [none |-> TRUE] /\ wire = <<>>
Same(a, b, random) == IF random THEN Len(a) = Len(b) /\ SubSeq(a, 1, Len(a) - 4) = SubSeq(b, 1, Len(b) - 4) ELSE a = b
Why ==
  CASE E.op = "framer" -> IF E.app = AppOf(E.num, E.den) THEN "" ELSE "application identifier derived from the basis"
    [] E.op = "new" -> IF E.ok = (Overhead(Fresh) < E.mtu) THEN "" ELSE "a frame exists exactly when its overhead fits"
    [] E.op \in {"add", "event"} ->
         IF E.ok # Fits(f, Item) THEN "an element is accepted exactly when it fits"
         ELSE IF ~E.ok /\ E.left # f.mtu - Used(f) THEN "a refused element alters the frame" ELSE ""
    [] E.op = "fin" -> IF ~Same(E.bytes, Wire(f), E.random /\ f.crc) THEN "bytes of the finished frame"
                       ELSE IF Len(E.bytes) > f.mtu THEN "size limit"
                       ELSE IF E.used # Len(E.bytes) THEN "reported size" ELSE ""
    [] E.op = "again" -> IF E.used = Len(wire) /\ E.bytes = wire THEN "" ELSE "finishing again changes the frame"
    [] E.op = "pad" -> IF E.amount # (IF E.want < f.mtu - Len(wire) THEN E.want ELSE f.mtu - Len(wire)) THEN "amount of padding"
                       ELSE IF E.bytes # wire \o Zeros(E.amount) THEN "padding" ELSE ""
    [] E.op = "sized" -> IF E.bytes # Sized \o wire THEN "length prefix" ELSE IF E.size # Len(wire) + 4 THEN "reported size" ELSE ""
    [] E.op = "decode" -> IF Agrees(wire, Reg, Decode(wire, Reg, E.expected), E.out) THEN "" ELSE "decoding"
    [] E.op = "end" -> ""
    [] OTHER -> "unexpected event"
Next == /\ l <= Len(T.ev)
        /\ IF Why = ""
           THEN /\ l' = l + 1 /\ UNCHANGED tid
                /\ app' = IF E.op = "framer" THEN E.app ELSE app
                /\ last' = IF E.op = "new" THEN [last EXCEPT ![E.kind] = TsNow] ELSE last
                /\ f' = CASE E.op = "new" -> IF E.ok THEN Fresh ELSE f
                          [] E.op \in {"add", "event"} -> IF E.ok THEN Put(f, E.id, Item) ELSE f
                          [] E.op = "fin" -> [f EXCEPT !.fin = TRUE]
                          [] OTHER -> f
                /\ wire' = CASE E.op \in {"fin", "pad"} -> E.bytes
                             [] E.op = "new" -> <<>>
                             [] OTHER -> wire
                /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
