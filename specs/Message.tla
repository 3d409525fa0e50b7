------------------------------- MODULE Message -------------------------------
(* Messages split into fragments, the receiver's cache of fragments, and    *)
(* what of it survives on disk.                                             *)
EXTENDS Codec, FiniteSets

Types == 0..5
MsgHeader == 11
NumberSpace == 65536

(* ---- the sender *)
Sender(mtu, crc, app) == [mtu |-> mtu, crc |-> crc, app |-> app, ts |-> Zeros(8), num |-> [t \in Types |-> 0]]
PerFrame(s) == s.mtu - Header - MsgHeader - (IF s.crc THEN 4 ELSE 0)
Total(s, n) == IF n = 0 THEN 1 ELSE (n + PerFrame(s) - 1) \div PerFrame(s)
Accepts(s, n) == PerFrame(s) > 0 /\ Total(s, n) < NumberSpace
Piece(s, b, i) == SubSeq(b, i * PerFrame(s) + 1, IF (i + 1) * PerFrame(s) < Len(b) THEN (i + 1) * PerFrame(s) ELSE Len(b))
FragmentWire(s, ty, b, crc, ts, i) ==
  LET f == NewFrame(s.mtu, s.crc, s.app, 3, ts) p == Piece(s, b, i)
  IN Wire([f EXCEPT !.n = Len(p), !.body = <<ty>> \o FromInt(s.num[ty], 2) \o crc \o FromInt(i, 2)
                                             \o FromInt(Total(s, Len(b)), 2) \o p])
After(s, ty, ts, k) == [s EXCEPT !.ts = ts, !.num[ty] = (@ + k) % NumberSpace]

(* ---- the receiver: a function from <<type, crc>> to what is known of that message *)
Nothing == [parts |-> <<>>, complete |-> FALSE, number |-> 0]
Of(c, k) == IF k \in DOMAIN c THEN c[k] ELSE Nothing
With(c, k, m) == [x \in DOMAIN c \cup {k} |-> IF x = k THEN m ELSE c[x]]
Key(f) == <<f.mtype, f.crc>>
HasPart(m, i) == i \in DOMAIN m.parts
AddPart(m, i, d) == IF HasPart(m, i) THEN m ELSE [m EXCEPT !.parts = [j \in DOMAIN m.parts \cup {i} |-> IF j = i THEN d ELSE m.parts[j]]]
Join(parts, n) == Cat([i \in 1..n |-> parts[i - 1]])
Bytes(m) == Join(m.parts, Cardinality(DOMAIN m.parts))
Learn(m, f) ==     \* what fragment f makes of what is known of its message
  IF m.complete THEN [m EXCEPT !.number = f.number]
  ELSE LET n == AddPart(m, f.index, f.data)
       IN IF Cardinality(DOMAIN n.parts) = f.total THEN [n EXCEPT !.complete = TRUE, !.number = f.number] ELSE n
Ingest(c, f) == With(c, Key(f), Learn(Of(c, Key(f)), f))
Completes(c, f) == ~Of(c, Key(f)).complete /\ Learn(Of(c, Key(f)), f).complete
Complete(c, ty) == {k \in DOMAIN c : k[1] = ty /\ c[k].complete}

(* ---- the disk: fragments as they arrive, the rest when it is saved *)
EmptyDisk == [parts |-> <<>>, meta |-> <<>>]
Stored(d, f) == [d EXCEPT !.parts = With(@, Key(f), AddPart([parts |-> IF Key(f) \in DOMAIN d.parts THEN d.parts[Key(f)].parts ELSE <<>>],
                                                            f.index, f.data))]
Persist(c, d, f) == IF Of(c, Key(f)).complete \/ HasPart(Of(c, Key(f)), f.index) THEN d ELSE Stored(d, f)
Save(c, d) == [d EXCEPT !.meta = c]
Load(d) == [k \in DOMAIN d.parts \cup DOMAIN d.meta |->
              [parts |-> IF k \in DOMAIN d.parts THEN d.parts[k].parts ELSE <<>>,
               complete |-> IF k \in DOMAIN d.meta THEN d.meta[k].complete ELSE FALSE,
               number |-> IF k \in DOMAIN d.meta THEN d.meta[k].number ELSE 0]]
=============================================================================
