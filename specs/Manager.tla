------------------------------- MODULE Manager -------------------------------
(* A group of named daemons with dependencies between them.                *)
EXTENDS Daemon, FiniteSets
(* daemons: name -> [deps (set of names), state]                           *)
NoDaemons == [n \in {} |-> [deps |-> {}, state |-> "idle"]]
AddDaemon(m, n, deps) == IF n \in DOMAIN m THEN m ELSE [k \in DOMAIN m \cup {n} |-> IF k = n THEN [deps |-> deps, state |-> "idle"] ELSE m[k]]
AddDaemonOk(m, n) == n \notin DOMAIN m
(* every registered daemon that n needs, directly or not *)
RECURSIVE Needs(_, _, _)
Needs(m, todo, found) == IF todo = {} THEN found
  ELSE LET n == CHOOSE x \in todo : TRUE  d == m[n].deps \cap DOMAIN m IN Needs(m, (todo \cup (d \ found)) \ {n}, found \cup d)
(* nothing is promised for daemons whose dependencies run in a circle *)
Circular(m, n) == \E d \in {n} \cup Needs(m, {n}, {}) : d \in Needs(m, {d}, {})
Required(m, n) == IF Circular(m, n) THEN {} ELSE Needs(m, {n}, {})
(* it is enough to look at the direct ones if that is done for everyone *)
Direct(m, n) == m[n].deps \cap DOMAIN m
(* may n be started now, when `before` have had their turn *)
Ready(m, n, before) == Required(m, n) \subseteq before
Missing(m) == UNION {m[n].deps : n \in DOMAIN m} \ DOMAIN m
=============================================================================
