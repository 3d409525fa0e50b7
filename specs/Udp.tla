--------------------------------- MODULE Udp ---------------------------------
(* Destinations: [flush, state, broken, due, may, live, gone, all].         *)
(* due: frames it had to get; may: the ones it may have got.               *)
EXTENDS Integers, Sequences, FiniteSets
NewDest(flush) == [flush |-> flush, state |-> "coming", broken |-> -1, due |-> <<>>, may |-> {}, live |-> FALSE, gone |-> 0]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
ToSet(s) == {s[i] : i \in 1..Len(s)}
(* d: datagrams, each a sequence of frames *)
Delivered(x, d) == LET f == Flat(d) IN
  /\ Increasing(f) /\ ToSet(f) \subseteq x.may
  /\ (x.broken < 0 => ToSet(x.due) \subseteq ToSet(f))
  /\ (x.flush => \A i \in 1..Len(d) : Len(d[i]) = 1)
=============================================================================
