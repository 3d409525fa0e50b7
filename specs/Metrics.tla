------------------------------- MODULE Metrics ------------------------------
(* A bounded queue that publishes how many elements it holds and how many  *)
(* were put into it and taken from it.                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Bound
(* one step each; got: what the operation returned *)
Fits(q) == Len(q) < Bound
PutOk(q, v) == Append(q, v)
Counts(enq, deq) == [elements |-> enq - deq, enqueued |-> enq, dequeued |-> deq]
=============================================================================
