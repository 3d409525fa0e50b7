------------------------------- MODULE Server -------------------------------
(* A telemetry server: daemons and network services, as configured, until  *)
(* its run time expires, it is interrupted, or somebody asks for its end   *)
(* with the right identifier.                                              *)
EXTENDS Integers, Sequences, FiniteSets
Services == {"http", "wscmd", "wstlm", "tcp"}          (* listed in the service registry *)
Sinks == {"udp"}                                       (* receive without connecting *)
Always == {"time", "telemetry", "stream", "command"}
Daemons == Always \cup Services \cup {"app"}
Stops == {"stop_all", "booted", "expire", "interrupt", "request"}
(* the identifiers a request can carry *)
Right == "right"
Wrong == {"other", "larger", "wider", "negative", "empty", "word", "number_word", "fraction", "exponent", "hex", "none"}
Ways == {"query", "form", "get", "put", "command"}
(* only a POST request carries a shutdown: with the identifier in its query or its body *)
Shuts(id, way) == id = Right /\ way \in {"query", "form"}
Status(id, way) == CASE way = "get" -> 404 [] way = "put" -> 501 [] way = "command" -> 400
                     [] OTHER -> IF id = Right THEN 200 ELSE 400
Configured(conf) == Always \cup (conf \cap Services) \cup (conf \cap {"app"})
(* d: state of every daemon: "none", "idle", "running", "paused" *)
New(conf) == [x \in Daemons |-> IF x \in Configured(conf) THEN "idle" ELSE "none"]
Started(d) == [x \in Daemons |-> IF d[x] = "idle" THEN "running" ELSE d[x]]
Ended(d) == [x \in Daemons |-> IF d[x] = "none" THEN "none" ELSE "idle"]
Can(s, o) == CASE o = "pause" -> s \in {"running", "paused"} [] o = "unpause" -> s \in {"paused", "running", "idle"}
               [] o = "stop" -> s \in {"running", "idle"} [] o = "start" -> s \in {"idle", "running"} [] OTHER -> FALSE
After(s, o) == IF ~Can(s, o) THEN s
               ELSE CASE o = "pause" -> "paused" [] o = "unpause" -> IF s = "paused" THEN "running" ELSE s
                      [] o = "stop" -> "idle" [] o = "start" -> "running"
(* what a service needs in order to answer *)
Needs(s) == CASE s = "http" -> {"http"} [] s = "wscmd" -> {"wscmd", "command"} [] s = "app" -> {"app"}
              [] s = "udp" -> {"time", "telemetry", "stream"} [] OTHER -> {s, "time", "telemetry", "stream"}
Gate(s) == IF s = "udp" THEN "stream" ELSE s
Answers(d, conf, frozen, s) ==
  IF s = "udp" /\ "udp" \notin conf THEN "no"
  ELSE IF d[Gate(s)] \in {"none", "idle"} THEN "no"
  ELSE IF frozen /\ s \notin {"http", "wscmd"} THEN "any"
  ELSE IF \A x \in Needs(s) : d[x] = "running" THEN "yes" ELSE "any"
=============================================================================
