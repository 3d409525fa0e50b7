------------------------------ MODULE ClientMC ------------------------------
(* Design: frames of a real wire format pass a channel that may corrupt    *)
(* them, insert foreign ones or truncate; the client delivers exactly the  *)
(* intact ones of its application, in order, and never stops.              *)
EXTENDS Codec
CONSTANTS MaxFrames
VARIABLES sent, delivered
App == <<0, 7>>
Reg == <<[name |-> "a", type |-> "uint8", stream |-> FALSE]>>
Make(app, k) == Wire(Put(NewFrame(40, TRUE, app, 1, FromInt(k, 8)), 0, <<k>>))
Good == {Make(App, k) : k \in 1..2}
Foreign == {Make(<<0, 8>>, 1)}
Cut == {SubSeq(Make(App, 1), 1, n) : n \in {0, 1, 5, 14, 15, 17}}
Bent == {[Make(App, 2) EXCEPT ![i] = (@ + 64) % 256] : i \in {1, 4, 16, 17, 18, 20, 22}}
Strange == {<<0, 7, 9>> \o Zeros(19), <<0, 7, 4>> \o Zeros(19), Put(NewFrame(40, TRUE, App, 1, Zeros(8)), 9, <<1>>).ids}
Init == sent = <<>> /\ delivered = <<>>
Receive(b) == /\ Len(sent) < MaxFrames /\ sent' = Append(sent, b)
              /\ delivered' = IF Decode(b, Reg, App).none THEN delivered ELSE Append(delivered, b)
Next == \E b \in Good \cup Foreign \cup Cut \cup Bent \cup Strange : Receive(b)
Spec == Init /\ [][Next]_<<sent, delivered>>
Exact == delivered = SelectSeq(sent, LAMBDA b : b \in Good)
=============================================================================
