---------------------------- MODULE Reassembly ----------------------------
(* Recovering length-prefixed frames from a byte stream that arrives in    *)
(* arbitrary chunks.  State: the unconsumed bytes and, when a prefix was   *)
(* already read, the length it announced (-1: none).                       *)
EXTENDS Integers, Sequences

CONSTANT W                 \* number of bytes in a length prefix (>= 2)

Fresh == [buf |-> <<>>, need |-> -1]

TooBig(p, max) == \/ \E i \in 1..(W - 2) : p[i] # 0
                  \/ p[W - 1] * 256 + p[W] > max
Announced(p) == p[W - 1] * 256 + p[W]

From(s, i) == SubSeq(s, i, Len(s))

RECURSIVE Drain(_, _, _)
Drain(st, max, out) ==
  IF st.need = -1
  THEN IF Len(st.buf) < W
       THEN [st |-> st, out |-> out]
       ELSE LET p == SubSeq(st.buf, 1, W)
            IN  IF TooBig(p, max)
                THEN [st |-> Fresh, out |-> out]     \* discard everything buffered
                ELSE Drain([buf |-> From(st.buf, W + 1), need |-> Announced(p)], max, out)
  ELSE IF Len(st.buf) < st.need
       THEN [st |-> st, out |-> out]
       ELSE Drain([buf |-> From(st.buf, st.need + 1), need |-> -1], max,
                  Append(out, SubSeq(st.buf, 1, st.need)))

(* a chunk arrives: the new state and the frames delivered by it *)
Feed(st, chunk, max) == Drain([st EXCEPT !.buf = @ \o chunk], max, <<>>)

(* the bytes of a sequence of frames on the wire *)
Prefix(n) == [i \in 1..W |-> IF i = W THEN n % 256 ELSE IF i = W - 1 THEN n \div 256 ELSE 0]
RECURSIVE Wire(_)
Wire(fs) == IF fs = <<>> THEN <<>> ELSE Prefix(Len(Head(fs))) \o Head(fs) \o Wire(Tail(fs))
=============================================================================
