------------------------------- MODULE Cache -------------------------------
(* A cache: a map from keys to data, and the directory it was written to.  *)
(* disk[k] is what was last written for k; stale are the keys that a later *)
(* write no longer contained (their file may or may not be left behind).   *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [k \in {} |-> ""]
Put(m, k, v) == [x \in (DOMAIN m) \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, k) == [x \in (DOMAIN m) \ {k} |-> m[x]]
Over(m, d) == [x \in (DOMAIN m) \cup (DOMAIN d) |-> IF x \in DOMAIN m THEN m[x] ELSE d[x]]
(* writing: every key of the memory is on disk afterwards *)
WriteDisk(dir, m) == [data |-> Over(m, dir.data), stale |-> (dir.stale \cup DOMAIN dir.data) \ DOMAIN m]
NewDir == [data |-> Empty, stale |-> {}]
(* what loading a directory may give *)
Loads(dir, m) == /\ DOMAIN m \subseteq DOMAIN dir.data
                 /\ (DOMAIN dir.data) \ dir.stale \subseteq DOMAIN m
                 /\ \A k \in DOMAIN m : m[k] = dir.data[k]
=============================================================================
