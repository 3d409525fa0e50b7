------------------------------- MODULE Daemon -------------------------------
(* The lifecycle of a daemon: its visible state, who may move it from one  *)
(* state to another, and what each operation answers.                      *)
EXTENDS Integers, Sequences
DaemonStates == {"idle", "starting", "running", "paused", "stopping"}
Operations == {"start", "stop", "pause", "unpause"}
(* the single move an operation makes when it is honoured *)
OpFrom(op) == CASE op = "start" -> "idle" [] op = "stop" -> "running" [] op = "pause" -> "running" [] op = "unpause" -> "paused"
OpTo(op) == CASE op = "start" -> "starting" [] op = "stop" -> "stopping" [] op = "pause" -> "paused" [] op = "unpause" -> "running"
(* the moves the daemon's own thread makes *)
RunMove(a, b) == \/ a = "starting" /\ b = "running"
                 \/ a \in {"running", "paused", "stopping"} /\ b = "idle"
(* requested by name, an operation is skipped (and successful) in these states *)
Skipped(op) == CASE op = "start" -> {"starting", "running"}
                 [] op = "stop" -> {"stopping", "idle"}
                 [] op = "pause" -> {"paused"}
                 [] op = "unpause" -> {"idle", "running"}
                 [] OTHER -> {}
(* the moves an operation makes, in order, if it is honoured *)
Plan(op) == IF op = "restart" THEN <<"stop", "start">> ELSE IF op \in Operations THEN <<op>> ELSE <<>>
=============================================================================
