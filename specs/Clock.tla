------------------------------- MODULE Clock -------------------------------
(* One shared clock: t, the shared time; last, the real time of the latest *)
(* update; s = [n, d], the scale n / d.                                    *)
EXTENDS Integers, FiniteSets, Sequences
Updated(k, now) == [k EXCEPT !.t = @ + ((now - k.last) * k.s.n) \div k.s.d, !.last = now]
Scaled(k, s) == IF s.n >= 0 THEN [k EXCEPT !.s = s] ELSE k
Forced(k, t) == [k EXCEPT !.t = t]
Asleep(k, amount) == IF k.s.n = 0 THEN amount ELSE (amount * k.s.d) \div k.s.n
=============================================================================
