----------------------------- MODULE TraceBase -----------------------------
(* Reading recorded executions of the implementation.  A batch is a JSON   *)
(* list of [cfg |-> ..., ev |-> <<event, ...>>]; the trace to be judged is *)
(* chosen by the initial state.                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
=============================================================================
