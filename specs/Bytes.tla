------------------------------- MODULE Bytes -------------------------------
(* Byte sequences, numbers of arbitrary size as base-256 limbs (big-endian *)
(* sequences of 0..255), IEEE-754 encodings and CRC-32, written out so     *)
(* that they are an oracle independent of the implementation's libraries.  *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Zeros(n) == [i \in 1..n |-> 0]
Slice(s, a, n) == SubSeq(s, a + 1, a + n)                 \* from offset a
Cat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

(* ---- unsigned numbers as limbs of a fixed width; overflow is reported by Fits *)
RECURSIVE MulAddFrom(_, _, _, _)
MulAddFrom(s, m, carry, i) ==          \* s * m + carry, for limbs i, i-1, .. 1
  IF i = 0 THEN s
  ELSE LET v == s[i] * m + carry IN MulAddFrom([s EXCEPT ![i] = v % 256], m, v \div 256, i - 1)
MulAdd(s, m, a) == MulAddFrom(s, m, a, Len(s))
FromDec(ds, n) == FoldLeft(LAMBDA acc, d : MulAdd(acc, 10, d), Zeros(n), ds)
FromInt(v, n) == MulAdd(Zeros(n), 1, v)                   \* v < 2^31
Neg(s) == MulAdd([i \in 1..Len(s) |-> 255 - s[i]], 1, 1)  \* two's complement
Geq(a, b) == \/ a = b                                     \* same width, unsigned
             \/ \E i \in 1..Len(a) : a[i] > b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
ToInt(s) == FoldLeft(LAMBDA acc, b : acc * 256 + b, 0, s) \* small numbers only
Small(s) == Len(s) <= 2 \/ \A i \in 1..(Len(s) - 2) : s[i] = 0

(* ---- IEEE-754: lead.m x 2^e with m 13 nibbles, as printed by float.hex() *)
NibBits(x) == <<(x \div 8) % 2, (x \div 4) % 2, (x \div 2) % 2, x % 2>>
MBits(m) == Cat([i \in 1..Len(m) |-> NibBits(m[i])])
BitsToBytes(b) == [i \in 1..(Len(b) \div 8) |->
   FoldLeft(LAMBDA acc, x : acc * 2 + x, 0, SubSeq(b, 8 * (i - 1) + 1, 8 * i))]
IntBits(v, n) == [i \in 1..n |-> (v \div (2^(n - i))) % 2]
BitsInt(b) == FoldLeft(LAMBDA acc, x : acc * 2 + x, 0, b)
(* round-to-nearest-even of a bit string (most significant first) to n bits; *)
(* the result has n+1 bits so that a carry is visible                        *)
RoundBits(b, n) ==
  LET keep == SubSeq(b, 1, n) rest == SubSeq(b, n + 1, Len(b))
      up == /\ rest # <<>> /\ rest[1] = 1
            /\ (\E i \in 2..Len(rest) : rest[i] = 1) \/ keep[n] = 1
      RECURSIVE Inc(_, _)
      Inc(s, i) == IF i = 0 THEN s ELSE IF s[i] = 0 THEN [s EXCEPT ![i] = 1] ELSE Inc([s EXCEPT ![i] = 0], i - 1)
  IN IF up THEN Inc(<<0>> \o keep, n + 1) ELSE <<0>> \o keep
(* value: [k |-> "float", cls, neg, lead, e, m]; eb exponent bits, mb mantissa bits *)
Ieee(v, eb, mb) ==
  LET sign == IF v.neg THEN <<1>> ELSE <<0>>
      bias == 2^(eb - 1) - 1
      top == 2^eb - 1
      inf == BitsToBytes(sign \o IntBits(top, eb) \o Zeros(mb))
      zero == BitsToBytes(sign \o Zeros(eb + mb))
      full == <<v.lead>> \o MBits(v.m)                     \* 53 bits
      shift == IF v.e < 1 - bias THEN (1 - bias) - v.e ELSE 0
      sub == shift > 0
      bits == IF sub THEN Zeros(IF shift > 60 THEN 60 ELSE shift) \o full ELSE full
      r == RoundBits(bits, mb + 1)                         \* mb + 2 bits: carry, lead, mantissa
      carry == r[1] = 1
      lead == r[2] = 1
      expo == IF sub \/ v.lead = 0 THEN (IF lead \/ carry THEN 1 ELSE 0)
              ELSE v.e + bias + (IF carry THEN 1 ELSE 0)
      man == IF carry THEN SubSeq(r, 2, mb + 1) ELSE SubSeq(r, 3, mb + 2)
  IN CASE v.cls = "inf" -> inf
       [] v.cls = "zero" -> zero
       [] v.cls = "nan" -> BitsToBytes(sign \o IntBits(top, eb) \o <<1>> \o Zeros(mb - 1))
       [] v.cls = "fin" -> IF expo >= top THEN inf ELSE BitsToBytes(sign \o IntBits(expo, eb) \o man)
IsNan(b, eb) == LET bits == Cat([i \in 1..Len(b) |-> IntBits(b[i], 8)])
                IN (\A i \in 2..(eb + 1) : bits[i] = 1) /\ (\E i \in (eb + 2)..Len(bits) : bits[i] = 1)

(* ---- CRC-32 (reflected 0xEDB88320) on 16-bit halves *)
CrcStep(c) == \* c = <<hi, lo>>
  LET odd == c[2] % 2 = 1
      sh == <<c[1] \div 2, (c[2] \div 2) + (c[1] % 2) * 32768>>
  IN IF odd THEN <<sh[1] ^^ 60856, sh[2] ^^ 33568>> ELSE sh     \* EDB8 8320
RECURSIVE CrcSteps(_, _)
CrcSteps(c, n) == IF n = 0 THEN c ELSE CrcSteps(CrcStep(c), n - 1)
CrcTable == [i \in 0..255 |-> CrcSteps(<<0, i>>, 8)]
CrcByte(c, b) == LET t == CrcTable[(c[2] ^^ b) % 256]
                 IN <<(c[1] \div 256) ^^ t[1], ((c[2] \div 256) + (c[1] % 256) * 256) ^^ t[2]>>
Crc32(s) == LET c == FoldLeft(CrcByte, <<65535, 65535>>, s)
                h == 65535 - c[1] l == 65535 - c[2]
            IN <<h \div 256, h % 256, l \div 256, l % 256>>
=============================================================================
