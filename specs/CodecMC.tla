------------------------------ MODULE CodecMC ------------------------------
(* Design: a frame built element by element never exceeds its limit, and   *)
(* decoding its bytes gives back exactly what was put in; a single   *)
(* corrupted bit is detected unless it makes the contents swallow the      *)
(* checksum (possible only for the count, the type and the element ids).   *)
EXTENDS Codec
CONSTANTS Mtus, Flips
VARIABLES f, put, wire
vars == <<f, put, wire>>
I(neg, d) == [k |-> "int", neg |-> neg, d |-> d]
Reg == <<[name |-> "a", type |-> "uint8", stream |-> FALSE], [name |-> "b", type |-> "int16", stream |-> FALSE],
         [name |-> "s", type |-> "uint8", stream |-> TRUE], [name |-> "c", type |-> "boolean", stream |-> FALSE]>>
Vals == {<<0, I(FALSE, <<0>>)>>, <<0, I(FALSE, <<2, 5, 5>>)>>, <<1, I(TRUE, <<3, 2, 7, 6, 8>>)>>, <<3, [k |-> "bool", b |-> TRUE]>>}
App == <<1, 2>>
Ts == FromInt(70000, 8)
Init == /\ \E m \in Mtus, c \in BOOLEAN, k \in {1, 2} : f = NewFrame(m, c, App, k, Ts) /\ Overhead(f) < m /\ (k = 1 => m < 35) /\ (k = 2 => m > 35)
        /\ put = <<>> /\ wire = <<>>
ContentOf(x) == IF f.kind = 1 THEN Encode(Reg[x[1] + 1].type, x[2])
                ELSE Encode(Reg[x[1] + 1].type, x[2]) \o Ts \o Encode(Reg[x[1] + 1].type, x[2]) \o Ts
Add == \E x \in Vals : /\ wire = <<>> /\ Fits(f, ContentOf(x))
                       /\ f' = Put(f, x[1], ContentOf(x)) /\ put' = Append(put, x) /\ UNCHANGED wire
Finalize == wire = <<>> /\ f' = [f EXCEPT !.fin = TRUE] /\ wire' = Wire(f) /\ UNCHANGED put
Next == Add \/ Finalize
Spec == Init /\ [][Next]_vars
R == Decode(wire, Reg, App)
Bounded == Used(f) <= f.mtu /\ (f.fin => Len(wire) = Used(f))
RoundTrip == f.fin =>
  /\ ~R.none /\ Len(R.items) = Len(put) /\ (f.crc => R.crc = Crc32(Content(f))) /\ (~f.crc => R.crc = <<>>)
  /\ \A i \in 1..Len(put) : LET t == Reg[put[i][1] + 1].type IN
       R.items[i].id = put[i][1] /\ Decoded(t, Slice(wire, R.items[i].off, Size(t)), put[i][2])
Foreign == f.fin => Decode(wire, Reg, <<1, 3>>).none
Flip(b, i, k) == [b EXCEPT ![i] = @ ^^ (2^k)]
(* a corrupted frame is only ever accepted when the corruption makes its contents swallow the checksum *)
Detected == (f.fin /\ f.crc /\ Flips) => \A i \in 1..Len(wire), k \in 0..7 :
   LET r == Decode(Flip(wire, i, k), Reg, <<>>) IN
     /\ r.none \/ r.crc = <<>>
     /\ (i <= 11 /\ i # 3) \/ i > 15 + 2 * f.n => r.none
Prefix == (f.fin /\ Flips) => \A n \in 0..(Len(wire) - 1) :
   LET r == Decode(SubSeq(wire, 1, n), Reg, <<>>) IN r.none \/ (f.crc /\ r.crc = <<>>)
=============================================================================
