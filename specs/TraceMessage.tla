----------------------------- MODULE TraceMessage -----------------------------
(* One sender and one cache.  A stop in the middle of receiving leaves the   *)
(* fragment stored or not: both are explored.                                *)
EXTENDS Message, TraceBase
VARIABLES tid, l, s, cache, disk, cbs
vars == <<tid, l, s, cache, disk, cbs>>
T == Traces[tid]
E == T.ev[l]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ cache = <<>> /\ disk = EmptyDisk
        /\ s = Sender(Traces[tid].cfg.mtu, Traces[tid].cfg.crc, Traces[tid].cfg.app)
        /\ cbs = [t \in Types |-> {}]
Ts == IF E.timed THEN Millis(E.time) ELSE s.ts
Notes(ty, n, d) == {[h |-> h, mtype |-> ty, number |-> n, data |-> d] : h \in cbs[ty]}
Same(seq, set) == Len(seq) = Cardinality(set) /\ {seq[i] : i \in 1..Len(seq)} = set
Ok(x) == x = TRUE
Sending ==
  /\ E.op = "serialize" /\ UNCHANGED <<cache, disk, cbs>>
  /\ E.ok = Accepts(s, Len(E.bytes))
  /\ IF ~E.ok THEN UNCHANGED s
     ELSE LET crc == Crc32(E.bytes) IN
          /\ E.total = Total(s, Len(E.bytes))
          /\ E.size = Len(E.bytes) + E.total * (s.mtu - PerFrame(s))
          /\ \A i \in 1..Len(E.frames) : E.frames[i].w = FragmentWire(s, E.mtype, E.bytes, crc, Ts, E.frames[i].i)
          /\ s' = After(s, E.mtype, Ts, 1)
Many == E.op = "many" /\ s' = After(s, E.mtype, s.ts, E.n) /\ UNCHANGED <<cache, disk, cbs>>
Handler == E.op = "handler" /\ cbs' = [cbs EXCEPT ![E.mtype] = @ \cup {E.h}] /\ UNCHANGED <<s, cache, disk>>
In == /\ E.op = "in" /\ UNCHANGED <<s, cbs>>
      /\ cache' = Ingest(cache, E.f) /\ disk' = Persist(cache, disk, E.f)
      /\ Same(E.notes, IF Completes(cache, E.f) THEN Notes(E.f.mtype, E.f.number, Bytes(cache'[Key(E.f)])) ELSE {})
Stop == /\ E.op = "stop" /\ UNCHANGED <<s, cbs>> /\ cache' = <<>>       \* the instance is gone
        /\ disk' \in (IF E.whole THEN {} ELSE {disk}) \cup {Persist(cache, disk, E.f)}
Saved == E.op = "save" /\ disk' = Save(cache, disk) /\ UNCHANGED <<s, cache, cbs>>
Clean == E.op = "clean" /\ disk' = EmptyDisk /\ cache' = <<>> /\ UNCHANGED <<s, cbs>>
Loaded == /\ E.op = "load" /\ cache' = Load(disk) /\ UNCHANGED <<s, disk>>
          /\ cbs' = [t \in Types |-> {E.handlers[i].h : i \in {j \in 1..Len(E.handlers) : E.handlers[j].mtype = t}}]
          /\ LET done == {x \in DOMAIN cache' : cache'[x].complete}
               told(k) == {[h |-> h, mtype |-> k[1], number |-> cache'[k].number, data |-> Bytes(cache'[k])] : h \in cbs'[k[1]]}
           IN Same(E.notes, UNION {told(k) : k \in done})
(* complete messages and contents, as reported *)
Listed == /\ E.op = "list" /\ UNCHANGED <<s, cache, disk, cbs>>
          /\ Same(E.offers, {[mtype |-> k[1], crc |-> k[2], number |-> cache[k].number, data |-> Bytes(cache[k])] :
                             k \in {x \in DOMAIN cache : cache[x].complete}})
(* content of a message by its checksum: absent unless complete *)
Asked == /\ E.op = "content" /\ UNCHANGED <<s, cache, disk, cbs>>
         /\ LET m == Of(cache, <<E.mtype, E.crc>>) IN
              E.has = m.complete /\ (E.has => E.number = m.number /\ E.data = Bytes(m))
Temp == E.op = "temp" /\ E.left = 0 /\ UNCHANGED <<s, cache, disk, cbs>>
End == E.op = "end" /\ UNCHANGED <<s, cache, disk, cbs>>
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ (Sending \/ Many \/ Handler \/ In \/ Stop \/ Saved \/ Clean \/ Loaded \/ Listed \/ Asked \/ Temp \/ End)
        /\ l' = l + 1 /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
        /\ ("REPORT" \in DOMAIN IOEnv => PrintT(<<"AT", tid, l'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
