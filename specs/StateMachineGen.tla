-------------------------- MODULE StateMachineGen --------------------------
(* Runs: where the step wants to go (or that it fails), and whether        *)
(* leaving and entering is granted.                                        *)
EXTENDS Sequences, TLC, Json, Integers
CONSTANT N
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < N /\ \E to \in {"x", "y", "z", "nowhere", "raise"}, v \in {"yes", "noleave", "noenter", "raiseleave", "raiseenter"} :
          /\ (to \in {"nowhere", "raise"} => v = "yes")
          /\ hist' = Append(hist, <<to, v>>)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = N => PrintT("GEN " \o ToJson(hist))
=============================================================================
