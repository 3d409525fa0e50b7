------------------------------- MODULE Writer -------------------------------
(* Frames are taken one at a time; each goes to every output attached.     *)
(* An output: [kind, flush, closer, state, live, last, failed, handled,    *)
(* removed, closed, nones, gone, due].                                      *)
(* state: coming, yes, going, gone; live: attached since the frame being    *)
(* processed was taken; last: the last frame delivered; gone: the frame     *)
(* being processed when it was detached; due: frames it had to get.        *)
EXTENDS Integers, Sequences, FiniteSets
NewOut(kind, flush, closer, last) ==
  [kind |-> kind, flush |-> flush, closer |-> closer, state |-> "coming", live |-> FALSE, last |-> last, flushed |-> last,
   failed |-> FALSE, handled |-> 0, removed |-> FALSE, closed |-> 0, nones |-> 0, gone |-> 0, due |-> <<>>]
(* may frame n, being processed, still go to this output? *)
MayGet(o, n) == ~o.failed /\ o.last < n /\ (o.state # "gone" \/ o.gone = n)
(* is processing frame n finished as far as this output is concerned? *)
Served(o, n) == (o.live /\ o.kind # "file") => IF o.failed THEN TRUE ELSE o.last = n /\ (o.flush => o.flushed = n)
(* a failing stream that nobody removes is detached and reported once *)
Detached(o, haserr) == (o.live /\ o.failed) => (haserr => o.handled = 1) /\ (o.closer => o.closed = 1)
Take(o, n) == [o EXCEPT !.live = (o.state = "yes" /\ ~o.failed),
                        !.due = IF o.state = "yes" /\ ~o.failed THEN Append(@, n) ELSE @]
=============================================================================
