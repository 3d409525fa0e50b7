----------------------------- MODULE TraceEnum -----------------------------
(* Recorded uses of enumerations: objects (slots), the environment's       *)
(* registry (g), the describable registry (h) and channels.                *)
EXTENDS Enum, TraceBase
VARIABLES tid, l, slots, g, h, ch
T == Traces[tid]
E == T.ev[l]
Known == RegKnown(g, E.name)
Ms(x) == [i \in 1..Len(x) |-> x[i]]
Reserved == \E i \in 1..Len(T.cfg.types) : T.cfg.types[i] = E.name
NewE == Make(E.ms, E.d)
Enumeration(k) == slots[k]
ChanE == g[ch[E.c].e].e
(* the enumeration as listed by the real one: all names and pairs, default *)
ShowOk(e, s) == /\ Range(s.names) = Range(NamesOf(e)) /\ Len(s.names) = Len(e.m)
                /\ Range(s.map) = Range(e.m) /\ Len(s.map) = Len(e.m) /\ s.d = e.d

Why ==
  CASE E.op = "make" -> IF E.ok # MakeOk(E.ms) THEN "accepted exactly when names and values are distinct"
                        ELSE IF E.ok /\ ~ShowOk(NewE, E.show) THEN "the members and default of a new enumeration" ELSE ""
    [] E.op = "show" -> IF ShowOk(Enumeration(E.s), E.show) THEN "" ELSE "what an enumeration lists and encodes"
    [] E.op = "copy" -> IF ~E.eq THEN "a decoded enumeration equals the original"
                        ELSE IF ~ShowOk(Enumeration(E.s), E.show) THEN "what a decoded enumeration lists" ELSE ""
    [] E.op = "str" -> IF E.ok = HasValue(Enumeration(E.s), E.v) /\ (E.ok => E.n = NameOf(Enumeration(E.s), E.v)) THEN "" ELSE "name of a value"
    [] E.op \in {"value", "prim"} -> IF E.op = "prim" /\ HasName(Enumeration(E.s), E.n) /\ ~CanHold(ValueOf(Enumeration(E.s), E.n))
                                     THEN IF E.ok THEN "a primitive that can't hold the value" ELSE ""
                                     ELSE IF E.ok = HasName(Enumeration(E.s), E.n) /\ (E.ok => E.v = ValueOf(Enumeration(E.s), E.n)) THEN "" ELSE "value of a name"
    [] E.op = "reg" -> IF Reserved THEN (IF E.ok THEN "the name of a type was registered" ELSE "")
                       ELSE IF E.how = "strict" /\ Known THEN (IF E.ok THEN "a known name was registered again" ELSE "")
                       ELSE IF ~E.ok THEN "a new enumeration was refused"
                       ELSE IF E.id # (IF Known THEN RegId(g, E.name) ELSE Len(g)) THEN "identifier of an enumeration" ELSE ""
    [] E.op = "regshow" -> IF Len(E.all) # Len(g) THEN "number of registered enumerations"
                           ELSE IF \E i \in 1..Len(g) : E.all[i].name # g[i].name \/ ~ShowOk(g[i].e, E.all[i]) THEN "a registered enumeration" ELSE ""
    [] E.op = "hadd" -> IF E.ok = RegKnown(h, E.name) THEN "accepted exactly when the name is new"
                        ELSE IF E.ok /\ E.id # Len(h) THEN "identifier of an enumeration" ELSE ""
    [] E.op = "hshow" -> IF Len(E.all) # Len(h) THEN "number of described enumerations"
                         ELSE IF \E i \in 1..Len(h) : E.all[i].name # h[i].name \/ ~ShowOk(h[i].e, E.all[i]) THEN "a described enumeration" ELSE ""
    [] E.op = "chan" -> LET known == RegKnown(g, E.name)
                            e == g[RegId(g, E.name) + 1].e
                            ok == known /\ (E.x # <<>> => HasName(e, E.x) /\ CanHold(ValueOf(e, E.x)))
                        IN IF E.ok # ok THEN "an enumeration channel is added exactly when its enumeration and initial name exist"
                           ELSE IF E.left # ok THEN "a channel that could not be added was left behind"
                           ELSE IF E.ok /\ E.c # Len(ch) + 1 THEN "channel number" ELSE ""
    [] E.op = "cset" -> IF E.ok # (HasName(ChanE, E.x) /\ CanHold(ValueOf(ChanE, E.x))) THEN "assignment by name" ELSE ""
    [] E.op = "craw" -> IF E.ok # CanHold(E.v) THEN "assignment by value" ELSE ""
    [] E.op = "cget" -> IF E.v # ch[E.c].v THEN "value of an enumeration channel"
                        ELSE IF E.ok # HasValue(ChanE, E.v) THEN "a channel reports a name exactly when its value has one"
                        ELSE IF E.ok /\ E.n # NameOf(ChanE, E.v) THEN "the name of the channel's value" ELSE ""
    [] E.op = "end" -> ""
    [] OTHER -> "unexpected event: " \o E.op

Effect == CASE E.op = "make" -> /\ slots' = IF E.ok THEN Append(slots, NewE) ELSE slots
                                /\ UNCHANGED <<g, h, ch>>
            [] E.op = "reg" -> /\ g' = IF E.ok THEN RegAdd(g, E.name, Enumeration(E.s)) ELSE g
                               /\ UNCHANGED <<slots, h, ch>>
            [] E.op = "hadd" -> /\ h' = IF E.ok THEN RegAdd(h, E.name, Enumeration(E.s)) ELSE h
                                /\ UNCHANGED <<slots, g, ch>>
            [] E.op = "chan" -> /\ ch' = IF E.ok THEN Append(ch, [e |-> RegId(g, E.name) + 1,
                                             v |-> IF E.x = <<>> THEN 0 ELSE ValueOf(g[RegId(g, E.name) + 1].e, E.x)]) ELSE ch
                                /\ UNCHANGED <<slots, g, h>>
            [] E.op = "cset" -> /\ ch' = IF E.ok THEN [ch EXCEPT ![E.c].v = ValueOf(ChanE, E.x)] ELSE ch
                                /\ UNCHANGED <<slots, g, h>>
            [] E.op = "craw" -> /\ ch' = IF E.ok THEN [ch EXCEPT ![E.c].v = E.v] ELSE ch
                                /\ UNCHANGED <<slots, g, h>>
            [] OTHER -> UNCHANGED <<slots, g, h, ch>>

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ slots = <<>> /\ h = <<>> /\ ch = <<>>
        /\ g = [i \in 1..Len(Traces[tid].cfg.base) |->
                  [name |-> Traces[tid].cfg.base[i].name, e |-> Make(Traces[tid].cfg.base[i].ms, Traces[tid].cfg.base[i].d)]]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, slots, g, h, ch>>
=============================================================================
