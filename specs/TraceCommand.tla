---------------------------- MODULE TraceCommand ----------------------------
EXTENDS Command, TraceBase
VARIABLES tid, l, regs, regdone, cmds, before, entered, st, cur
(* regs: handler -> [name, kind, msg, cb], registered or being registered; regdone: registered *)
(* cmds: command -> [name, want, cb, sync, about, must]; st: command -> what happened so far   *)
T == Traces[tid]
E == T.ev[l]
Fresh == [begun |-> {}, ran |-> {}, told |-> {}, resd |-> {}, rej |-> FALSE]
S(c) == IF c \in DOMAIN st THEN st[c] ELSE Fresh
Names == {regs[h].name : h \in DOMAIN regs}
HandlersOf(n) == {h \in DOMAIN regs : regs[h].name = n}
Keys(s) == {s[i].k : i \in 1..Len(s)}
(* the answer of the built-in help: how many handlers each command has *)
HelpOk(c, ok, keys) ==
  LET about == cmds[c].about IN
  IF about = "?" THEN ~ok
  ELSE IF about # "" /\ about \notin Names THEN ~ok
  ELSE IF about # "" /\ cmds[c].known[about] = 0 THEN TRUE
  ELSE /\ ok
       /\ Cardinality(Keys(keys)) = Len(keys)
       /\ IF about # "" THEN Keys(keys) = {about} ELSE Keys(keys) \subseteq Names /\ \A n \in Names : cmds[c].known[n] > 0 => n \in Keys(keys)
       /\ \A i \in 1..Len(keys) : cmds[c].known[keys[i].k] <= keys[i].n /\ keys[i].n <= Cardinality(HandlersOf(keys[i].k))
Fits(c, h, ok, msg, keys) == IF regs[h].kind = "help" THEN HelpOk(c, ok, keys) /\ msg # "" ELSE Outcome(regs[h], c, ok, msg)
HelpRan(c) == \E h \in HandlersOf(cmds[c].name) : regs[h].kind = "help"
Ran(c) == S(c).ran \cup {h \in HandlersOf(cmds[c].name) : regs[h].kind = "help"}
Done(c) == /\ {h \in cmds[c].must : regs[h].kind # "help"} \subseteq S(c).ran
           /\ S(c).begun \subseteq S(c).ran
           /\ {h \in S(c).ran : regs[h].cb} \subseteq S(c).resd
           /\ cmds[c].cb => /\ (S(c).ran \cup (IF HelpRan(c) THEN cmds[c].must ELSE {})) \subseteq S(c).told
                            /\ S(c).told # {} \/ S(c).rej
(* may something happen for command c now? *)
Open(c) == IF c \notin DOMAIN cmds THEN "something else was handled"
           ELSE IF c = cur THEN ""
           ELSE IF c \in DOMAIN st THEN "a command was taken up again"
           ELSE IF cur # 0 /\ ~Done(cur) THEN "the next command was handled before the previous one was finished"
           ELSE IF \E x \in before[c] : ~Done(x) THEN "a command was passed over" ELSE ""
Why == CASE E.op \in {"reg0", "reg1", "submitted"} -> ""
         [] E.op = "submit" -> IF E.c \in DOMAIN cmds THEN "harness" ELSE ""
         [] E.op = "run" -> IF Open(E.c) # "" THEN Open(E.c)
                            ELSE IF E.h \notin DOMAIN regs \/ regs[E.h].name # cmds[E.c].name THEN "a handler of another command ran"
                            ELSE IF S(E.c).rej THEN "a rejected command was handled"
                            ELSE IF E.h \in S(E.c).begun THEN "a handler ran twice"
                            ELSE IF E.data # cmds[E.c].want \/ ~E.none THEN "the handler got other data" ELSE ""
         [] E.op = "ended" -> ""
         [] E.op = "result" -> IF cur = 0 \/ E.h \notin S(cur).ran \/ ~regs[E.h].cb THEN "a result of no handler was reported"
                               ELSE IF E.h \in S(cur).resd THEN "a result was reported twice"
                               ELSE IF ~Fits(cur, E.h, E.ok, E.msg, <<>>) THEN "a wrong result was reported" ELSE ""
         [] E.op = "answer" -> IF Open(E.c) # "" THEN Open(E.c)
                               ELSE IF ~cmds[E.c].cb THEN "harness"
                               ELSE IF Ran(E.c) = {}
                               THEN (IF cmds[E.c].must # {} THEN "a command with a handler was answered without it"
                                     ELSE IF S(E.c).rej THEN "a command was answered twice"
                                     ELSE IF E.ok \/ E.msg = "" THEN "a command that can't be handled was answered with a success" ELSE "")
                               ELSE IF ~\E h \in Ran(E.c) \ S(E.c).told : Fits(E.c, h, E.ok, E.msg, E.keys) THEN "a wrong answer, or one too many" ELSE ""
         [] E.op = "ret" -> IF E.late /\ ~E.ok THEN ""
                            ELSE IF Ran(E.c) = {}
                            THEN (IF cmds[E.c].must # {} THEN "a request returned before its command was handled"
                                  ELSE IF E.ok \/ E.msg = "" THEN "a request that can't be handled succeeded" ELSE "")
                            ELSE IF \E h \in Ran(E.c) : Fits(E.c, h, E.ok, E.msg, E.keys) THEN "" ELSE "a request returned an outcome that isn't its own"
         [] E.op = "drained" -> IF \E c \in DOMAIN cmds : ~Done(c) THEN "commands were not handled or answered in the end" ELSE ""
         [] E.op = "counts" -> IF /\ E.command = Cardinality(DOMAIN cmds)
                                  /\ E.rejected = Cardinality({c \in DOMAIN cmds : Ran(c) = {}})
                                  /\ LET helps == Cardinality({c \in DOMAIN cmds : HelpRan(c)}) IN
                                     /\ E.success + E.failure = E.runs + helps
                                     /\ E.success \in E.oks..E.oks + helps
                               THEN "" ELSE "the counters differ from what happened"
         [] E.op = "end" -> ""
         [] OTHER -> "unexpected event: " \o E.op
With(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Effect ==
  CASE E.op = "reg0" -> regs' = With(regs, E.h, [name |-> E.name, kind |-> E.kind, msg |-> E.msg, cb |-> E.cb])
                        /\ UNCHANGED <<regdone, cmds, before, entered, st, cur>>
    [] E.op = "reg1" -> regdone' = regdone \cup {E.h} /\ UNCHANGED <<regs, cmds, before, entered, st, cur>>
    [] E.op = "submit" -> /\ cmds' = With(cmds, E.c, [name |-> E.name, want |-> E.want, cb |-> E.cb, sync |-> E.sync, about |-> E.about,
                                                      must |-> {h \in regdone : regs[h].name = E.name},
                                                      known |-> [n \in {T.cfg.names[i] : i \in 1..Len(T.cfg.names)} |->
                                                                   Cardinality({h \in regdone : regs[h].name = n})]])
                          /\ before' = With(before, E.c, entered) /\ UNCHANGED <<regs, regdone, entered, st, cur>>
    [] E.op = "submitted" -> entered' = entered \cup {E.c} /\ UNCHANGED <<regs, regdone, cmds, before, st, cur>>
    [] E.op = "run" -> st' = With(st, E.c, [S(E.c) EXCEPT !.begun = @ \cup {E.h}]) /\ cur' = E.c /\ entered' = entered \cup {E.c}
                       /\ UNCHANGED <<regs, regdone, cmds, before>>
    [] E.op = "ended" -> st' = With(st, E.c, [S(E.c) EXCEPT !.ran = @ \cup {E.h}]) /\ UNCHANGED <<regs, regdone, cmds, before, entered, cur>>
    [] E.op = "result" -> st' = With(st, cur, [S(cur) EXCEPT !.resd = @ \cup {E.h}]) /\ UNCHANGED <<regs, regdone, cmds, before, entered, cur>>
    [] E.op = "answer" -> /\ st' = With(st, E.c, IF Ran(E.c) = {} THEN [S(E.c) EXCEPT !.rej = TRUE]
                                                 ELSE [S(E.c) EXCEPT !.told = @ \cup {CHOOSE h \in Ran(E.c) \ S(E.c).told : Fits(E.c, h, E.ok, E.msg, E.keys)}])
                          /\ cur' = E.c /\ entered' = entered \cup {E.c} /\ UNCHANGED <<regs, regdone, cmds, before>>
    [] E.op = "ret" -> entered' = entered \cup {E.c} /\ UNCHANGED <<regs, regdone, cmds, before, st, cur>>
    [] OTHER -> UNCHANGED <<regs, regdone, cmds, before, entered, st, cur>>
Nothing == [x \in {} |-> {}]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ regs = Nothing /\ regdone = {} /\ cmds = Nothing /\ before = Nothing /\ entered = {} /\ st = Nothing /\ cur = 0
Next == /\ l <= Len(T.ev) /\ UNCHANGED tid
        /\ IF Why = "" THEN /\ l' = l + 1 /\ Effect /\ (l = Len(T.ev) => PrintT(<<"DONE", tid>>))
           ELSE PrintT(<<"REJECT", tid, l, Why>>) /\ FALSE
Spec == Init /\ [][Next]_<<tid, l, regs, regdone, cmds, before, entered, st, cur>>
=============================================================================
