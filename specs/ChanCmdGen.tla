----------------------------- MODULE ChanCmdGen -----------------------------
(* every combination of operation, way of addressing, kind of channel and amount *)
EXTENDS Sequences, TLC, Json, Integers
VARIABLE cmd
Ops == {"set", "get", "increment", "decrement", "bad", "none"}
Ways == {"name", "id", "both", "mismatch", "noname", "noid", "badname", "badid", "nothing"}
Types == {"bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "enum", "fixed", "fixedenum"}
Amounts == {"absent", "one", "minus", "edge", "beyond", "frac", "text", "member", "null", "list", "truth", "special"}
Init == cmd \in [op : Ops, way : Ways, type : Types, amount : Amounts]
Next == FALSE /\ UNCHANGED cmd
Spec == Init /\ [][Next]_cmd
Emit == PrintT("GEN " \o ToJson(cmd))
=============================================================================
