----------------------------- MODULE MetricsGen -----------------------------
(* Sequences of operations on a bounded queue with what each returns.      *)
EXTENDS Metrics, TLC, Json
CONSTANT N
VARIABLES q, hist
Init == q = <<>> /\ hist = <<>>
Log(op, ok, v) == hist' = Append(hist, [op |-> op, ok |-> ok, v |-> v])
Next == /\ Len(hist) < N
        /\ \/ \E how \in {"put", "now"} : IF Fits(q) THEN q' = PutOk(q, Len(hist)) /\ Log(how, TRUE, Len(hist))
                                          ELSE UNCHANGED q /\ Log("now", FALSE, Len(hist))
           \/ \E how \in {"get", "getnow"} : IF q # <<>> THEN q' = Tail(q) /\ Log(how, TRUE, Head(q))
                                             ELSE UNCHANGED q /\ Log("getnow", FALSE, 0)
Spec == Init /\ [][Next]_<<q, hist>>
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
