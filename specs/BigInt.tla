------------------------------- MODULE BigInt -------------------------------
(* Signed integers of any size: [neg, d] with d the digits, base 10000,    *)
(* least significant first, without leading zeros; zero is <<>>.           *)
EXTENDS Integers, Sequences
Base == 10000
RECURSIVE Trim(_)
Trim(d) == IF d = <<>> \/ d[Len(d)] # 0 THEN d ELSE Trim(SubSeq(d, 1, Len(d) - 1))
Num(neg, d) == [neg |-> neg /\ Trim(d) # <<>>, d |-> Trim(d)]
Dig(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
(* magnitudes *)
LessMag(a, b) == \/ Len(a) < Len(b)
                 \/ Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) == IF i > MaxLen(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET s == Dig(a, i) + Dig(b, i) + c IN <<s % Base>> \o AddFrom(a, b, i + 1, s \div Base)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) == IF i > Len(a) THEN <<>>
                       ELSE LET s == a[i] - Dig(b, i) - c IN <<s % Base>> \o SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
Plus(x, y) == IF x.neg = y.neg THEN Num(x.neg, AddFrom(x.d, y.d, 1, 0))
              ELSE IF LessMag(x.d, y.d) THEN Num(y.neg, SubFrom(y.d, x.d, 1, 0))
              ELSE Num(x.neg, SubFrom(x.d, y.d, 1, 0))
Minus(x) == Num(~x.neg, x.d)
Less(x, y) == IF x.neg # y.neg THEN x.neg ELSE IF x.neg THEN LessMag(y.d, x.d) ELSE LessMag(x.d, y.d)
AtMost(x, y) == ~Less(y, x)
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Digits(n \div Base)
Big(n) == IF n < 0 THEN Num(TRUE, Digits(-n)) ELSE Num(FALSE, Digits(n))
RECURSIVE PowerOf2(_)
PowerOf2(k) == IF k = 0 THEN Big(1) ELSE LET h == PowerOf2(k - 1) IN Plus(h, h)
=============================================================================
