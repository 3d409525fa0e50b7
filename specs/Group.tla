------------------------------- MODULE Group -------------------------------
(* Named channels in groups: v, channel -> value; of, channel -> group.    *)
EXTENDS Integers, Sequences, FiniteSets
(* what a write leaves: [c |-> [v, ok]] with ok = the channel can hold it  *)
Written(v, w) == [c \in DOMAIN v |-> IF c \in DOMAIN w /\ w[c].ok THEN w[c].v ELSE v[c]]
Snapshot(v, cs) == [c \in DOMAIN v \cap cs |-> v[c]]
=============================================================================
