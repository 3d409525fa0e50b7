------------------------------ MODULE CacheMC ------------------------------
EXTENDS Cache, TLC
CONSTANTS Keys, Vals, Insts
VARIABLES mem, dir, cleaned   \* cleaned: nothing was written since the last cleaning
vars == <<mem, dir, cleaned>>
Init == mem = [i \in Insts |-> Empty] /\ dir = NewDir /\ cleaned = TRUE
DoPut(i, k, v) == mem' = [mem EXCEPT ![i] = Put(mem[i], k, v)] /\ UNCHANGED <<dir, cleaned>>
DoDrop(i, k) == mem' = [mem EXCEPT ![i] = Drop(mem[i], k)] /\ UNCHANGED <<dir, cleaned>>
DoWrite(i) == dir' = WriteDisk(dir, mem[i]) /\ cleaned' = FALSE /\ UNCHANGED mem
DoClean(i) == mem' = [mem EXCEPT ![i] = Empty] /\ dir' = NewDir /\ cleaned' = TRUE
DoOpen(i) == /\ \E S \in SUBSET dir.stale : LET m == [k \in (DOMAIN dir.data) \ S |-> dir.data[k]] IN
                   Loads(dir, m) /\ mem' = [mem EXCEPT ![i] = m]
             /\ UNCHANGED <<dir, cleaned>>
Next == \E i \in Insts : \/ \E k \in Keys, v \in Vals : DoPut(i, k, v)
                         \/ \E k \in Keys : DoDrop(i, k)
                         \/ DoWrite(i) \/ DoClean(i) \/ DoOpen(i)
Spec == Init /\ [][Next]_vars
(* a freshly written cache is what the next one loads; a cleaned one is empty *)
RoundTrip == \A i \in Insts : LET d == WriteDisk(dir, mem[i]) IN
   \A k \in DOMAIN mem[i] : k \notin d.stale /\ d.data[k] = mem[i][k]
CleanIsNew == cleaned => dir = NewDir
StaleKnown == dir.stale \subseteq DOMAIN dir.data
OnlyWrites == [][dir' # dir => \E i \in Insts : dir' = WriteDisk(dir, mem[i]) \/ (dir' = NewDir /\ mem'[i] = Empty)]_vars
=============================================================================
