-------------------------------- MODULE Net ---------------------------------
(* The network services that send telemetry: every connection gets the     *)
(* frames that are sent while it exists, in order, each of them once.      *)
(* Frames are numbered in the order in which they are sent.                *)
EXTENDS Integers, Sequences, FiniteSets
Kinds == {"tcp", "ws"}
(* a connection: low: the first frame it may get, high: the first it must  *)
(* get (0: the service hasn't accepted it yet), last: the last it has got  *)
NoConn == [st |-> "off", kind |-> "tcp", low |-> 1, high |-> 0, last |-> 0, stalled |-> FALSE, gone |-> 0]
Connecting(k, settled) == [NoConn EXCEPT !.st = "conn", !.kind = k, !.low = settled + 1]
Accepted(c, n) == [c EXCEPT !.st = IF @ = "conn" THEN "on" ELSE @, !.high = n + 1]
(* the frame that a connection gets next *)
NextOk(c, i) == IF c.last # 0 THEN i = c.last + 1 ELSE i >= c.low /\ (c.high # 0 => i <= c.high)
(* everything that was sent up to frame n has arrived *)
Complete(c, n) == IF c.last # 0 THEN c.last = n ELSE n < c.high
=============================================================================
