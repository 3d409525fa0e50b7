------------------------------ MODULE CodecGen ------------------------------
(* Behaviours: element types offered to a frame of a given size, in order; *)
(* the frame's own accounting decides what fits.                           *)
EXTENDS Codec, Json
CONSTANTS Types, Mtus, Depth, Kind
VARIABLES f, hist
Init == /\ \E m \in Mtus, c \in BOOLEAN : /\ f = NewFrame(m, c, <<0, 0>>, Kind, Zeros(8)) /\ Overhead(f) < m
                                          /\ hist = <<<<"new", ToString(m), IF c THEN "crc" ELSE "plain">>>>
Content1(t) == IF Kind = 1 THEN Zeros(Size(t)) ELSE Zeros(2 * Size(t) + 16)
Next == /\ Len(hist) < Depth /\ ~f.fin
        /\ \/ \E t \in Types : /\ f' = IF Fits(f, Content1(t)) THEN Put(f, 0, Content1(t)) ELSE f
                               /\ hist' = Append(hist, <<"add", t, "">>)
           \/ f' = [f EXCEPT !.fin = TRUE] /\ hist' = Append(hist, <<"fin", "", "">>)
Spec == Init /\ [][Next]_<<f, hist>>
Out == (f.fin \/ Len(hist) = Depth) => PrintT("GEN " \o ToJson(hist))
=============================================================================
