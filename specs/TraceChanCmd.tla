---------------------------- MODULE TraceChanCmd ----------------------------
(* Commands (and direct assignments) and what every channel held after     *)
(* each of them.                                                           *)
EXTENDS ChanCmd, TraceBase
VARIABLES tid, l, vals
T == Traces[tid]
E == T.ev[l]
Chans == T.cfg.chans
Seen(x) == IF x.k = "float" /\ x.s # "" THEN [k |-> "float", n |-> Big(0), s |-> x.s] ELSE [k |-> x.k, n |-> Num(x.n.neg, x.n.d), s |-> x.s]
Arg(x) == [k |-> x.k, n |-> Num(x.n.neg, x.n.d), s |-> x.s, low |-> x.low]
C == [op |-> E.cmd.op, hasname |-> E.cmd.hasname, nameok |-> E.cmd.nameok, name |-> E.cmd.name, hasid |-> E.cmd.hasid, idok |-> E.cmd.idok, id |-> E.cmd.id,
      hasval |-> E.cmd.hasval, val |-> Arg(E.cmd.val)]
i == Addressed(Chans, C)
want == IF i = 0 THEN <<>> ELSE Wanted(Chans[i], vals[i], C)
Ok == i # 0 /\ (C.op = "get" \/ want # <<>>)
After == IF want = <<>> THEN vals ELSE [vals EXCEPT ![i] = want[1]]
Snap == [k \in 1..Len(Chans) |-> Seen(E.snap[k])]
NameOf(ch, v) == ch.enum[CHOOSE k \in 1..Len(ch.enum) : Big(ch.enum[k].v) = v.n].n
Why == CASE E.op = "cmd" -> IF E.ok # Ok THEN "a command succeeded or failed wrongly"
                            ELSE IF ~E.says THEN "nothing is said about the outcome"
                            ELSE IF Snap # After THEN "the channels after a command"
                            ELSE IF C.op = "get" /\ E.ok /\ (IF IsEnum(Chans[i]) THEN E.text # NameOf(Chans[i], vals[i]) ELSE Seen(E.got) # vals[i])
                            THEN "the value reported" ELSE ""
         [] E.op = "app" -> ""
         [] E.op = "end" -> ""
         [] OTHER -> "unexpected event: " \o E.op
Effect == vals' = IF E.op \in {"cmd", "app"} THEN Snap ELSE vals
Init == tid \in 1..Len(Traces) /\ l = 1 /\ vals = [k \in 1..Len(Traces[tid].cfg.chans) |-> Seen(Traces[tid].cfg.vals[k])]
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, vals>>
=============================================================================
