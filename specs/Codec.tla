------------------------------- MODULE Codec -------------------------------
(* Frames: construction within a maximum size, the wire layout, decoding.  *)
EXTENDS Bytes

Kinds == [invalid |-> 0, data |-> 1, event |-> 2, message |-> 3, stream |-> 4]
Size(t) == CASE t \in {"boolean", "int8", "uint8"} -> 1
             [] t \in {"int16", "uint16"} -> 2
             [] t \in {"int32", "uint32", "float"} -> 4
             [] t \in {"int64", "uint64", "double"} -> 8
Signed(t) == t \in {"int8", "int16", "int32", "int64"}

(* ---- values.  [k |-> "int", neg, d (decimal digits)], [k |-> "bool", b],  *)
(* [k |-> "float", cls, neg, lead, e, m] *)
Encode(t, v) == CASE t = "boolean" -> <<IF v.b THEN 1 ELSE 0>>
                  [] t = "float" -> Ieee(v, 8, 23)
                  [] t = "double" -> Ieee(v, 11, 52)
                  [] OTHER -> IF v.neg THEN Neg(FromDec(v.d, Size(t))) ELSE FromDec(v.d, Size(t))
KindOf(t) == CASE t = "boolean" -> "bool" [] t \in {"float", "double"} -> "float" [] OTHER -> "int"
(* does the decoded value v stand for these bytes? *)
Decoded(t, b, v) ==
  /\ v.k = KindOf(t)
  /\ CASE t = "boolean" -> v.b = (b[1] # 0)
       [] t = "float" -> IF IsNan(b, 8) THEN v.cls = "nan" ELSE v.cls # "nan" /\ Encode(t, v) = b
       [] t = "double" -> IF IsNan(b, 11) THEN v.cls = "nan" ELSE v.cls # "nan" /\ Encode(t, v) = b
       [] OTHER -> Encode(t, v) = b

(* ---- times: [s |-> decimal digits of the whole seconds, n |-> 1/1024 s] to milliseconds *)
Millis(tm) == MulAdd(FromDec(tm.s, 8), 1000, (tm.n * 1000) \div 1024)

(* ---- frames under construction *)
Header == 15
NewFrame(mtu, crc, app, kind, ts) ==
  [mtu |-> mtu, crc |-> crc, app |-> app, kind |-> kind, ts |-> ts, n |-> 0, ids |-> <<>>, body |-> <<>>, fin |-> FALSE]
Overhead(f) == Header + (IF f.crc THEN 4 ELSE 0)
Used(f) == Overhead(f) + Len(f.ids) + Len(f.body)
Fits(f, content) == ~f.fin /\ Used(f) + 2 + Len(content) <= f.mtu
Put(f, id, content) == [f EXCEPT !.n = @ + 1, !.ids = @ \o FromInt(id, 2), !.body = @ \o content]
Content(f) == f.app \o <<f.kind>> \o f.ts \o FromInt(f.n, 4) \o f.ids \o f.body
Wire(f) == Content(f) \o (IF f.crc THEN Crc32(Content(f)) ELSE <<>>)
EventContent(t, pv, pt, cv, ct) == Encode(t, pv) \o Millis(pt) \o Encode(t, cv) \o Millis(ct)

(* ---- decoding.  reg: registered channels, [name, type, stream], by id from 0 *)
None == [none |-> TRUE]
Chan(reg, b, off) == ToInt(Slice(b, off, 2)) + 1
Parsed(b, items, pos) ==      \* pos: end of what was parsed
  LET has == Len(b) - pos >= 4
      crc == IF has THEN Slice(b, pos, 4) ELSE <<>>
  IN IF has /\ crc # Crc32(SubSeq(b, 1, pos)) THEN None
     ELSE [none |-> FALSE, items |-> items, crc |-> crc]
DecodeList(b, reg, n, extra, copies) ==   \* n elements: ids, then `copies` values each followed by `extra` bytes
  LET idsok == /\ Header + 2 * n <= Len(b)
               /\ \A i \in 1..n : /\ Chan(reg, b, Header + 2 * (i - 1)) <= Len(reg)
                                  /\ ~reg[Chan(reg, b, Header + 2 * (i - 1))].stream
      step(i) == copies * (Size(reg[Chan(reg, b, Header + 2 * (i - 1))].type) + extra)
      RECURSIVE Items(_, _, _)
      Items(i, off, acc) ==
        IF i > n THEN [ok |-> TRUE, items |-> acc, pos |-> off]
        ELSE IF off + step(i) > Len(b) THEN [ok |-> FALSE]
        ELSE Items(i + 1, off + step(i), Append(acc, [id |-> Chan(reg, b, Header + 2 * (i - 1)) - 1, off |-> off]))
      r == Items(1, Header + 2 * n, <<>>)
  IN IF ~idsok THEN None ELSE IF ~r.ok THEN None ELSE Parsed(b, r.items, r.pos)
CountOf(b) == Slice(b, 11, 4)
Decode(b, reg, expected) ==
  IF Len(b) < 2 THEN None
  ELSE IF expected # <<>> /\ SubSeq(b, 1, 2) # expected THEN None
  ELSE IF Len(b) < Header THEN None
  ELSE IF b[3] > 4 THEN None
  ELSE IF b[3] = 0 THEN [none |-> FALSE, items |-> <<>>, crc |-> <<>>]
  ELSE IF ~Small(CountOf(b)) THEN None               \* more elements than any frame can hold
  ELSE LET n == ToInt(SubSeq(CountOf(b), 3, 4)) IN
    CASE b[3] = 1 -> IF 2 * n + Header > Len(b) THEN None ELSE DecodeList(b, reg, n, 0, 1)
      [] b[3] = 2 -> IF 2 * n + Header > Len(b) THEN None ELSE DecodeList(b, reg, n, 8, 2)
      [] b[3] = 3 -> IF Header + 11 + n > Len(b) THEN None
                     ELSE Parsed(b, <<[id |-> 0, off |-> Header]>>, Header + 11 + n)
      [] b[3] = 4 -> IF Header + 6 > Len(b) THEN None
                     ELSE IF Chan(reg, b, Header) > Len(reg) THEN None
                     ELSE IF ~reg[Chan(reg, b, Header)].stream THEN None
                     ELSE LET m == n * Size(reg[Chan(reg, b, Header)].type)
                          IN IF Header + 6 + m > Len(b) THEN None
                             ELSE Parsed(b, <<[id |-> Chan(reg, b, Header) - 1, off |-> Header + 6]>>, Header + 6 + m)

(* does what the implementation decoded (o) stand for the bytes? *)
ItemOk(b, reg, it, x) ==
  LET t == reg[it.id + 1].type s == Size(t)
  IN /\ x.id = it.id /\ x.name = reg[it.id + 1].name
     /\ IF b[3] = 1 THEN Decoded(t, Slice(b, it.off, s), x.v)
        ELSE /\ Decoded(t, Slice(b, it.off, s), x.pv) /\ x.pt = Slice(b, it.off + s, 8)
             /\ Decoded(t, Slice(b, it.off + s + 8, s), x.v) /\ x.t = Slice(b, it.off + 2 * s + 8, 8)
Agrees(b, reg, r, o) ==
  /\ o.none = r.none
  /\ o.none \/
     /\ o.app = Slice(b, 0, 2) /\ o.kind = b[3] /\ o.ts = Slice(b, 3, 8) /\ o.count = CountOf(b)
     /\ o.crc = r.crc /\ o.len = Len(b)
     /\ Len(o.items) = Len(r.items)
     /\ CASE b[3] \in {1, 2} -> \A i \in 1..Len(r.items) : ItemOk(b, reg, r.items[i], o.items[i])
          [] b[3] = 3 -> LET h == r.items[1].off n == ToInt(SubSeq(CountOf(b), 3, 4)) x == o.items[1]
                         IN /\ x.mtype = b[h + 1] /\ x.number = Slice(b, h + 1, 2) /\ x.mcrc = Slice(b, h + 3, 4)
                            /\ x.index = Slice(b, h + 7, 2) /\ x.total = Slice(b, h + 9, 2)
                            /\ x.data = Slice(b, h + 11, n)
          [] b[3] = 4 -> LET x == o.items[1] n == ToInt(SubSeq(CountOf(b), 3, 4)) IN
                         /\ x.id = r.items[1].id /\ x.index = Slice(b, Header + 2, 4)
                         /\ x.data = Slice(b, r.items[1].off, n * Size(reg[x.id + 1].type))
          [] OTHER -> TRUE
=============================================================================
