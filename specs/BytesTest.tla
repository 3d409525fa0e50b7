---- MODULE BytesTest ----
EXTENDS Bytes
F(lead, e, m) == [k |-> "float", cls |-> "fin", neg |-> FALSE, lead |-> lead, e |-> e, m |-> m]
ASSUME Crc32(<<49,50,51,52,53,54,55,56,57>>) = <<203, 244, 57, 38>>
ASSUME Ieee(F(1, 0, Zeros(13)), 11, 52) = <<63,240,0,0,0,0,0,0>>
ASSUME Ieee(F(1, -4, <<9,9,9,9,9,9,9,9,9,9,9,9,10>>), 8, 23) = <<61,204,204,205>>
ASSUME FromDec(<<6,5,5,3,7>>, 4) = <<0,1,0,1>>
ASSUME Neg(FromInt(2, 2)) = <<255, 254>>
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
====
