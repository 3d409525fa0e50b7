----------------------------- MODULE ServerGen ------------------------------
(* Histories of a server: operations on its daemons, requests, changes of  *)
(* the speed of time, and finally a reason to end.                         *)
EXTENDS Server, TLC, Json
CONSTANTS N, Confs
VARIABLES conf, d, hist, frozen, done
Init == conf \in Confs /\ d = Started(New(conf)) /\ hist = <<>> /\ frozen = FALSE /\ done = FALSE
Rec(o, x, y) == hist' = Append(hist, [op |-> o, d |-> x, o |-> y])
Ops == {"pause", "unpause", "stop", "start"}
Next == /\ ~done
        /\ IF Len(hist) < N
           THEN \/ \E x \in (Always \cup {"wscmd", "wstlm", "tcp"}), o \in Ops :
                     /\ d[x] # "none" /\ After(d[x], o) # d[x] /\ (x \in Services => o \in {"stop", "start"})
                     /\ d' = [d EXCEPT ![x] = After(@, o)] /\ Rec("cmd", x, o) /\ UNCHANGED <<conf, frozen, done>>
                \/ \E id \in Wrong \cup {Right}, way \in Ways :
                     /\ "http" \in conf /\ ~Shuts(id, way) /\ (way \in {"get", "put", "command"} => id = Right)
                     /\ Rec("req", id, way) /\ UNCHANGED <<conf, d, frozen, done>>
                \/ /\ (\A x \in Daemons : d[x] \in {"none", "running"}) /\ frozen' = ~frozen /\ Rec("scale", IF frozen THEN "on" ELSE "off", "")
                   /\ UNCHANGED <<conf, d, done>>
                \/ /\ d["app"] = "none" /\ d' = [d EXCEPT !["app"] = "running"] /\ conf' = conf \cup {"app"} /\ Rec("app", "", "")
                   /\ UNCHANGED <<frozen, done>>
           ELSE \E e \in Stops : /\ (e = "request" => "http" \in conf) /\ Rec("over", e, IF e = "request" THEN "query" ELSE "")
                                 /\ done' = TRUE /\ UNCHANGED <<conf, d, frozen>>
Spec == Init /\ [][Next]_<<conf, d, hist, frozen, done>>
Emit == done => PrintT("GEN " \o ToJson([hist |-> hist, conf |-> conf]))
=============================================================================
