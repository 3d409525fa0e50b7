----------------------------- MODULE TraceSerdes -----------------------------
EXTENDS Serdes, TraceBase
VARIABLES tid, l
T == Traces[tid]
E == T.ev[l]
D(s) == [f \in {s[i].f : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i].f = f].v]
d == IF "data" \in DOMAIN E THEN D(E.data) ELSE D(<<>>)
(* only the known primitives have an object *)
PrimOk == E.kind = "serializable_primitive" => Type(d, "name") = "str" /\ d["name"].c \in Range(T.cfg.prims)
CanBuild == Buildable(E.kind, d) /\ PrimOk
P(size, signed, integer, min, max) == [size |-> size, signed |-> signed, integer |-> integer, min |-> min, max |-> max]
Prim == [boolean |-> P(1, FALSE, FALSE, "", ""), int8 |-> P(1, TRUE, TRUE, "-128", "127"), uint8 |-> P(1, FALSE, TRUE, "0", "255"),
         int16 |-> P(2, TRUE, TRUE, "-32768", "32767"), uint16 |-> P(2, FALSE, TRUE, "0", "65535"),
         int32 |-> P(4, TRUE, TRUE, "-2147483648", "2147483647"), uint32 |-> P(4, FALSE, TRUE, "0", "4294967295"),
         int64 |-> P(8, TRUE, TRUE, "-9223372036854775808", "9223372036854775807"), uint64 |-> P(8, FALSE, TRUE, "0", "18446744073709551615"),
         float |-> P(4, TRUE, FALSE, "", ""), double |-> P(8, TRUE, FALSE, "", "")]
Accepted == E.schema = "none" \/ Accepts(E.kind, Built(E.kind, d), E.schema = "all")
Why ==
  CASE E.op = "build" -> IF CanBuild
                         THEN (IF ~E.ok THEN "no object could be built from a proper description"
                               ELSE IF ~Same(D(E.has), Built(E.kind, d)) THEN "the object differs from its description"
                               ELSE IF E.valid # Accepted THEN "an object reports itself valid exactly when the schema accepts its description" ELSE "")
                         ELSE (* no object, or one that is reported as the schema sees it *)
                              IF ~E.ok \/ E.valid = E.accepted THEN "" ELSE "an object with an unaccepted description reports itself valid"
    [] E.op = "describe" -> IF ~E.inner THEN "the descriptions within a registry are those of its enumerations"
                            ELSE IF ~E.valid THEN "a description is not accepted by its own schema"
                            ELSE IF ~Accepts(E.kind, d, TRUE) THEN "the description of an object" ELSE ""
    [] E.op = "round" -> LET back == Built(E.kind, Encode(d)) IN
                         IF ~E.ok THEN "an encoded object could not be decoded"
                         ELSE IF Accepts(E.kind, d, FALSE) /\ ~Same(back, d) THEN "the specification: accepted descriptions survive"
                         ELSE IF ~Same(D(E.has), back) \/ ~E.same THEN "a decoded object differs from the original"
                         ELSE IF E.eq # Same(back, d) THEN "a decoded object is not equal to the original"
                         ELSE IF E.valid # E.was THEN "a decoded object's validity differs" ELSE ""
    [] E.op = "compare" -> IF E.eq # (Same(d, D(E.has)) /\ E.same) THEN "objects compare equal exactly when their descriptions are the same" ELSE ""
    [] E.op = "next" -> IF E.a # E.b \/ E.a \in Range(E.ids) THEN "the next identifier of a decoded registry" ELSE ""
    [] E.op = "prim" -> IF E.name # E.of \/ ~E.same THEN "the primitive that a description is of"
                        ELSE IF E.has # Prim[E.of] THEN "the description of a primitive" ELSE ""
    [] E.op = "text" -> IF E.multi # E.indented THEN "indented text has lines, other text has not" ELSE ""
    [] E.op = "all" -> IF Range(E.names) # Range(T.cfg.prims) \/ Len(E.names) # Len(T.cfg.prims) THEN "all primitives" ELSE ""
    [] E.op = "end" -> ""
    [] OTHER -> "unexpected event: " \o E.op
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
