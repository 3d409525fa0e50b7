--------------------------- MODULE ReassemblyGen ---------------------------
(* Prints behaviours (stream, cuts) of the reassembly specification as     *)
(* action sequences for the conformance driver.                            *)
EXTENDS Reassembly, TLC, Json
CONSTANTS MaxSize, Streams, Cuts
VARIABLES left, hist

Fr(n) == [i \in 1..n |-> 10 * n + i]
Big == <<0, 0, 1, 0>>
Big2 == <<255, 255, 255, 255>>
Over == <<0, 0, 0, MaxSize + 1>>
S1 == { Wire(<<Fr(a), Fr(b)>>) : a \in 0..2, b \in 0..2 }
S2 == { Wire(<<Fr(a)>>) \o x \o Wire(<<Fr(b)>>) : a \in 0..1, b \in 0..1, x \in {Big, Big2, Over} }
S3 == { Wire(<<Fr(MaxSize), Fr(0), Fr(1), Fr(0), Fr(MaxSize - 1)>>) }
Pick == CASE Streams = "plain" -> S1 [] Streams = "over" -> S2 [] OTHER -> S3

Init == left \in Pick /\ hist = <<>>
Next == /\ left # <<>>
        /\ \E n \in Cuts \cup {Len(left)} :
             /\ n <= Len(left)
             /\ hist' = Append(hist, SubSeq(left, 1, n))
             /\ left' = From(left, n + 1)
Spec == Init /\ [][Next]_<<left, hist>>
Out == left = <<>> => PrintT("GEN " \o ToJson(hist))
=============================================================================
