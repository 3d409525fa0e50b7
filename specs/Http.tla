-------------------------------- MODULE Http --------------------------------
(* A table of request handlers, (method, path) -> handler, and what every  *)
(* request is answered.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
OK == 200
Failed == 400
NotFound == 404
Unsupported == 501
Methods == {"GET", "POST"}
(* HEAD is answered like GET, without the body *)
Method(m) == IF m = "HEAD" THEN "GET" ELSE m
Handler(table, m, p) == IF <<Method(m), p>> \in DOMAIN table THEN table[<<Method(m), p>>] ELSE 0
Registered(table, m, p, h) == [k \in DOMAIN table \cup {<<m, p>>} |-> IF k = <<m, p>> THEN h ELSE table[k]]
(* the status of a request whose handler, if any, succeeds or not *)
Status(table, m, p, ok) == IF Method(m) \notin Methods THEN Unsupported
                           ELSE IF Handler(table, m, p) = 0 THEN NotFound ELSE IF ok THEN OK ELSE Failed
(* the values of every parameter, in the order they were sent *)
Keys(ps) == {ps[i].k : i \in 1..Len(ps)}
RECURSIVE ValuesOf(_, _)
ValuesOf(ps, k) == IF ps = <<>> THEN <<>> ELSE (IF Head(ps).k = k THEN <<Head(ps).v>> ELSE <<>>) \o ValuesOf(Tail(ps), k)
Params(ps) == [k \in Keys(ps) |-> ValuesOf(ps, k)]
(* a body is a sequence of code points, and is sent in UTF-8 *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Encoded(_)
Encoded(s) == IF s = <<>> THEN <<>> ELSE Utf8(Head(s)) \o Encoded(Tail(s))
(* the text of an error page is escaped: & < > *)
Escape(c) == CASE c = 38 -> <<38, 97, 109, 112, 59>> [] c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>> [] OTHER -> Utf8(c)
RECURSIVE Escaped(_)
Escaped(s) == IF s = <<>> THEN <<>> ELSE Escape(Head(s)) \o Escaped(Tail(s))
Contains(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
(* the text in a status line: words, without what isn't ASCII *)
=============================================================================
