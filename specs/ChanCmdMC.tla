----------------------------- MODULE ChanCmdMC -----------------------------
(* All short histories of commands to a few channels: at most the addressed *)
(* channel changes, values stay within their types, inverse commands undo   *)
(* each other.                                                              *)
EXTENDS ChanCmd, FiniteSets
CONSTANT MaxOps
VARIABLES vals, ops, last
Chans == <<[name |-> "a", type |-> "int8", may |-> TRUE, enum |-> <<>>], [name |-> "b", type |-> "uint64", may |-> TRUE, enum |-> <<>>],
           [name |-> "c", type |-> "bool", may |-> FALSE, enum |-> <<>>], [name |-> "d", type |-> "double", may |-> TRUE, enum |-> <<>>],
           [name |-> "e", type |-> "uint8", may |-> TRUE, enum |-> <<[n |-> "x", v |-> 0], [n |-> "y", v |-> 255], [n |-> "z", v |-> 256]>>]>>
I(n) == [k |-> "int", n |-> n, s |-> "", low |-> ""]
Amounts == {I(Big(0)), I(Big(127)), I(Big(-128)), I(PowerOf2(64)), I(High["uint64"]), [k |-> "float", n |-> Big(512), s |-> "", low |-> ""],
            [k |-> "str", n |-> Big(0), s |-> "", low |-> "y"], [k |-> "str", n |-> Big(0), s |-> "", low |-> "z"], [k |-> "bool", n |-> Big(1), s |-> "", low |-> ""]}
Adr == {<<FALSE, "", FALSE, 0>>, <<TRUE, "q", FALSE, 0>>, <<TRUE, "a", TRUE, 1>>, <<FALSE, "", TRUE, -1>>, <<FALSE, "", TRUE, 5>>}
       \cup {<<TRUE, Chans[i].name, FALSE, 0>> : i \in 1..Len(Chans)} \cup {<<FALSE, "", TRUE, i - 1>> : i \in 1..Len(Chans)}
Cmds == {[op |-> op, hasname |-> a[1], nameok |-> TRUE, name |-> a[2], hasid |-> a[3], idok |-> TRUE, id |-> a[4], hasval |-> h, val |-> v] :
           op \in {"set", "increment", "decrement", "get", "bad"}, a \in Adr, h \in {TRUE}, v \in Amounts}
Zero(t) == IF t = "bool" THEN V("bool", Big(0)) ELSE IF t = "double" THEN V("float", Big(0)) ELSE V("int", Big(0))
Init == vals = [i \in 1..Len(Chans) |-> Zero(Chans[i].type)] /\ ops = 0 /\ last = <<>>
Do(c) == LET i == Addressed(Chans, c) IN
         LET w == IF i = 0 THEN <<>> ELSE Wanted(Chans[i], vals[i], c) IN
         /\ ops < MaxOps /\ ops' = ops + 1
         /\ vals' = IF w = <<>> THEN vals ELSE [vals EXCEPT ![i] = w[1]]
         /\ last' = <<c, i, w # <<>>, vals>>
Next == \E c \in Cmds : Do(c)
Sample == {0, 1, -1, 9999, 10000, -10000, 10001, 123456789, -123456789, 99999999, 100000000, -99999999}
ASSUME \A x, y \in Sample : /\ Plus(Big(x), Big(y)) = Big(x + y) /\ (Less(Big(x), Big(y)) <=> x < y) /\ Minus(Big(x)) = Big(-x)
Spec == Init /\ [][Next]_<<vals, ops, last>>
InType == \A i \in 1..Len(Chans) : Holds(Chans[i].type, vals[i])
OnlyAddressed == last # <<>> => \A i \in 1..Len(Chans) : (i # last[2] \/ ~last[3]) => vals[i] = last[4][i]
Undone == (last # <<>> /\ last[3] /\ last[1].op = "increment") =>
          Wanted(Chans[last[2]], vals[last[2]], [last[1] EXCEPT !.op = "decrement"]) = <<last[4][last[2]]>>
=============================================================================
