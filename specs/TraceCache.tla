---------------------------- MODULE TraceCache ----------------------------
EXTENDS Cache, TraceBase
VARIABLES tid, l, mem, dirs, loaded
T == Traces[tid]
E == T.ev[l]
MapOf(s) == [k \in {s[i].k : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i].k = k].v]
Obs == MapOf(E.mem)
Why == CASE E.op \in {"put", "drop"} -> ""
         [] E.op = "write" -> IF Obs # mem[E.i] THEN "writing changed the memory" ELSE ""
         [] E.op = "clean" -> IF E.mem # <<>> THEN "a cleaned cache holds data"
                              ELSE IF E.files # 0 THEN "a cleaned directory holds files" ELSE ""
         [] E.op = "open" -> IF Loads(dirs[E.d], Obs) THEN "" ELSE "data loaded from a directory"
         [] E.op = "load" -> IF E.d \in loaded[E.i] THEN (IF Obs = mem[E.i] THEN "" ELSE "a loaded directory was loaded again")
                             ELSE IF /\ \A k \in DOMAIN mem[E.i] : k \in DOMAIN Obs /\ Obs[k] = mem[E.i][k]
                                     /\ Loads(dirs[E.d], [k \in (DOMAIN Obs) \ (DOMAIN mem[E.i]) |-> Obs[k]])
                                  THEN "" ELSE "data loaded from another directory"
         [] E.op = "end" -> ""
         [] OTHER -> "unexpected event: " \o E.op
Effect == CASE E.op = "put" -> mem' = [mem EXCEPT ![E.i] = Put(@, E.k, E.v)] /\ UNCHANGED <<dirs, loaded>>
            [] E.op = "drop" -> mem' = [mem EXCEPT ![E.i] = Drop(@, E.k)] /\ UNCHANGED <<dirs, loaded>>
            [] E.op = "write" -> dirs' = [dirs EXCEPT ![E.i2] = WriteDisk(@, mem[E.i])] /\ UNCHANGED <<mem, loaded>>
            [] E.op = "clean" -> /\ mem' = [mem EXCEPT ![E.i] = Empty] /\ dirs' = [dirs EXCEPT ![E.i2] = NewDir]
                                 /\ loaded' = [loaded EXCEPT ![E.i] = {E.i2}]
            [] E.op = "open" -> mem' = [mem EXCEPT ![E.i] = Obs] /\ loaded' = [loaded EXCEPT ![E.i] = {E.d}] /\ UNCHANGED dirs
            [] E.op = "load" -> mem' = [mem EXCEPT ![E.i] = Obs] /\ loaded' = [loaded EXCEPT ![E.i] = @ \cup {E.d}] /\ UNCHANGED dirs
            [] OTHER -> UNCHANGED <<mem, dirs, loaded>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ mem = [i \in 1..2 |-> Empty] /\ dirs = [d \in 1..3 |-> NewDir]
        /\ loaded = [i \in 1..2 |-> {}]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, mem, dirs, loaded>>
=============================================================================
