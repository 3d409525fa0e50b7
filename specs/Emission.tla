------------------------------ MODULE Emission ------------------------------
(* Channels, their values and change events, and dispatching them into     *)
(* frames.  Times and periods are in 1/1024 s.                             *)
EXTENDS Codec

W == 12                                         \* limbs of a stored integer (two's complement)
(* ---- values as a channel stores them *)
Tc(v) == IF v.neg THEN Neg(FromDec(v.d, W)) ELSE FromDec(v.d, W)
OfBool(b) == FromInt(IF b THEN 1 ELSE 0, W)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, carry, i) == IF i = 0 THEN a
  ELSE LET v == a[i] + b[i] + carry IN AddFrom([a EXCEPT ![i] = v % 256], b, v \div 256, i - 1)
AddTc(a, b) == AddFrom(a, b, 0, W)
InRange(t, x) == LET n == Size(t) high == SubSeq(x, 1, W - n) IN
  IF Signed(t) THEN \/ (\A i \in 1..Len(high) : high[i] = 0) /\ x[W - n + 1] < 128
                    \/ (\A i \in 1..Len(high) : high[i] = 255) /\ x[W - n + 1] >= 128
  ELSE \A i \in 1..Len(high) : high[i] = 0
IntV(x) == [k |-> "int", x |-> x]
Default(t) == CASE KindOf(t) = "bool" -> [k |-> "bool", b |-> FALSE]
                [] KindOf(t) = "float" -> [k |-> "float", cls |-> "zero", neg |-> FALSE, lead |-> 0, e |-> 0, m |-> Zeros(13)]
                [] OTHER -> IntV(Zeros(W))
Bits(t, v) == IF KindOf(t) = "int" THEN SubSeq(v.x, W - Size(t) + 1, W) ELSE Encode(t, v)
(* is candidate c acceptable for type t, and what is then stored? *)
Single(v) == v.cls # "fin" \/ SubSeq(Ieee(v, 8, 23), 1, 2) \notin {<<127, 128>>, <<255, 128>>}
Acceptable(t, c) ==
  CASE KindOf(t) = "bool" -> c.k = "bool"
    [] KindOf(t) = "float" -> c.k = "float" /\ (t = "float" => Single(c))
    [] OTHER -> c.k = "bool" \/ (c.k = "int" /\ InRange(t, Tc(c)))
Stored(t, c) == IF KindOf(t) = "int" THEN IntV(IF c.k = "bool" THEN OfBool(c.b) ELSE Tc(c)) ELSE c
SameValue(v, w) == IF v.k = "float" THEN v.cls # "nan" /\ w.cls # "nan" /\ (v = w \/ (v.cls = "zero" /\ w.cls = "zero"))
                   ELSE v = w
Identical(v, w) == v = w \/ (v.k = "float" /\ w.k = "float" /\ v.cls = "nan" /\ w.cls = "nan")

(* ---- the environment *)
Channel(name, t, rate, tracked, cmd) ==
  [name |-> name, type |-> t, rate |-> rate, tracked |-> tracked, cmd |-> cmd, v |-> Default(t), at |-> 0, emitted |-> 0]
Env(mtu, crc, app) == [mtu |-> mtu, crc |-> crc, app |-> app, ch |-> <<>>, q |-> <<>>, now |-> 0]
Known(S, name) == \E i \in 1..Len(S.ch) : S.ch[i].name = name
(* assign v (already acceptable and stored form) to channel i at time t, keeping at most cap pending events *)
Assign(S, i, v, t, cap) ==
  LET c == S.ch[i]
      ev == [i |-> i, pv |-> c.v, pt |-> c.at, v |-> v, t |-> t]
  IN [S EXCEPT !.ch[i].v = v, !.ch[i].at = t,
               !.q = IF c.tracked /\ ~SameValue(c.v, v) /\ Len(@) < cap THEN Append(@, ev) ELSE @]
Due(c, t) == t >= c.emitted + c.rate

(* ---- packing elements into frames *)
Ms(t) == MulAdd(FromInt(t \div 1024, 8), 1000, ((t % 1024) * 1000) \div 1024)
Empty(S, kind, t) == NewFrame(S.mtu, S.crc, S.app, kind, Ms(t))
Pack(S, kind, t, items) ==       \* items: <<id, content>>
  LET step(fs, x) == IF fs # <<>> /\ Fits(fs[Len(fs)], x[2])
                     THEN [fs EXCEPT ![Len(fs)] = Put(@, x[1], x[2])]
                     ELSE Append(fs, Put(Empty(S, kind, t), x[1], x[2]))
  IN FoldLeft(step, <<>>, items)
DueSet(S, t) == {i \in 1..Len(S.ch) : Due(S.ch[i], t)}
RECURSIVE Ordered(_, _, _)
Ordered(n, is, i) == IF i > n THEN <<>> ELSE (IF i \in is THEN <<i>> ELSE <<>>) \o Ordered(n, is, i + 1)
DataItems(S, t) == LET o == Ordered(Len(S.ch), DueSet(S, t), 1)
                   IN [j \in 1..Len(o) |-> <<o[j] - 1, Bits(S.ch[o[j]].type, S.ch[o[j]].v)>>]
EventItem(S, e) == LET t == S.ch[e.i].type
                   IN <<e.i - 1, Bits(t, e.pv) \o Ms(e.pt) \o Bits(t, e.v) \o Ms(e.t)>>
DataFrames(S, t) == Pack(S, 1, t, DataItems(S, t))
EventFrames(S, t) == Pack(S, 2, t, [j \in 1..Len(S.q) |-> EventItem(S, S.q[j])])
Wires(fs) == [j \in 1..Len(fs) |-> Wire(fs[j])]
AfterDispatch(S, t) == [S EXCEPT !.q = <<>>, !.ch = [i \in DOMAIN @ |-> IF Due(@[i], t) THEN [@[i] EXCEPT !.emitted = t] ELSE @[i]]]
=============================================================================
