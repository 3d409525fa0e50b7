------------------------------ MODULE ChanCmd ------------------------------
(* Commands to channels.  A value is [k, n, s]: its kind, its number (of   *)
(* a float: times 1024; a bool: 0 or 1) or, for special values, a name.    *)
EXTENDS BigInt, TLC
V(k, n) == [k |-> k, n |-> n, s |-> ""]
Special(v) == v.k = "float" /\ v.s # ""
Bits == [int8 |-> 8, uint8 |-> 8, int16 |-> 16, uint16 |-> 16, int32 |-> 32, uint32 |-> 32, int64 |-> 64, uint64 |-> 64]
Signed == {"int8", "int16", "int32", "int64"}
Integral(t) == t \in DOMAIN Bits
High == [t \in DOMAIN Bits |-> Plus(PowerOf2(IF t \in Signed THEN Bits[t] - 1 ELSE Bits[t]), Big(-1))]
Low == [t \in DOMAIN Bits |-> IF t \in Signed THEN Minus(PowerOf2(Bits[t] - 1)) ELSE Big(0)]
(* may a channel of type t hold value v? *)
Holds(t, v) == CASE t = "bool" -> v.k = "bool"
                 [] Integral(t) -> v.k = "int" /\ AtMost(Low[t], v.n) /\ AtMost(v.n, High[t])
                 [] t = "float" -> v.k = "float" /\ v.s # "over"
                 [] t = "double" -> v.k = "float"
                 [] OTHER -> FALSE
Numeric(v) == v.k \in {"int", "float"}
Scaled(v) == IF v.k = "float" THEN v.n ELSE LET p == Plus(v.n, v.n) IN LET q == Plus(p, p) IN LET r == Plus(q, q) IN LET s == Plus(r, r) IN LET t == Plus(s, s) IN
             LET u == Plus(t, t) IN LET w == Plus(u, u) IN LET x == Plus(w, w) IN LET y == Plus(x, x) IN Plus(y, y)
(* the sum of a channel's value and an amount *)
Sum(v, a) == IF v.k = "int" /\ a.k = "int" THEN V("int", Plus(v.n, a.n)) ELSE V("float", Plus(Scaled(v), Scaled(a)))

(* chans: [name, type, may, enum (members [n, v])], in order of their id *)
Known(chans, n) == \E i \in 1..Len(chans) : chans[i].name = n
IdOf(chans, n) == CHOOSE i \in 1..Len(chans) : chans[i].name = n
(* the channel a command addresses, 0 if it addresses none *)
Addressed(chans, c) ==
  LET byid == IF c.hasid /\ c.idok /\ c.id >= 0 /\ c.id < Len(chans) THEN c.id + 1 ELSE 0
  IN IF c.hasname THEN (IF ~c.nameok \/ ~Known(chans, c.name) THEN 0
                        ELSE IF c.hasid /\ byid # IdOf(chans, c.name) THEN 0 ELSE IdOf(chans, c.name))
     ELSE byid
IsEnum(ch) == ch.enum # <<>>
Member(ch, low) == \E i \in 1..Len(ch.enum) : ch.enum[i].n = low
ValueOf(ch, low) == ch.enum[CHOOSE i \in 1..Len(ch.enum) : ch.enum[i].n = low].v
One == V("int", Big(1))
(* the value a command asks for: <<>> if it can't be done *)
Wanted(ch, cur, c) ==
  LET amount == IF c.hasval THEN c.val ELSE One
      new == CASE c.op = "set" -> IF ~c.hasval THEN <<>>
                                  ELSE IF IsEnum(ch) THEN (IF c.val.k = "str" /\ Member(ch, c.val.low) THEN <<V("int", Big(ValueOf(ch, c.val.low)))>> ELSE <<>>)
                                  ELSE <<[k |-> c.val.k, n |-> c.val.n, s |-> c.val.s]>>
               [] c.op \in {"increment", "decrement"} ->
                    IF IsEnum(ch) \/ ch.type = "bool" \/ ~Numeric(amount) THEN <<>>
                    ELSE <<Sum(cur, IF c.op = "increment" THEN amount ELSE [amount EXCEPT !.n = Minus(@)])>>
               [] OTHER -> <<>>
  IN IF ch.may /\ new # <<>> /\ Holds(ch.type, new[1]) THEN new ELSE <<>>
=============================================================================
