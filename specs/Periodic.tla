------------------------------ MODULE Periodic ------------------------------
(* A task called once per period.  Times are integers (1/4096 s); a daemon *)
(* measures its task with its own (scaled) clock and sleeps in real time.  *)
EXTENDS Integers, FiniteSets, Sequences
Max(a, b) == IF a < b THEN b ELSE a
(* a duration of scaled time, in real time; time that stands still doesn't *)
(* stretch it.  scale = [n, d]: n / d                                      *)
Real(amount, scale) == IF scale.n = 0 THEN amount ELSE (amount * scale.d) \div scale.n
Overrun(rate, tb, tf) == tf - tb >= rate
(* when the next call is due, for a call that began at tb and has ended    *)
(* now, at tf, by the daemon's own clock                                   *)
Due(now, rate, tb, tf, scale) == IF Overrun(rate, tb, tf) THEN now ELSE now + Real(rate - (tf - tb), scale)
=============================================================================
