---------------------------- MODULE Gen_Inline ----------------------------
(***************************************************************************)
(* Two inline programs in one process, after one another, at the same      *)
(* time or the second inside the first, every step of each: each run has a *)
(* context of its own, copied from its caller's and then set from its own  *)
(* environment. Checked: whatever the steps' order, each run ends as it    *)
(* would alone (Run), and the caller's context is as before.               *)
(***************************************************************************)
EXTENDS Inline, Json
CONSTANTS Show, Len1, Len2
A(a, n, v, s) == [a |-> a, n |-> n, v |-> v, s |-> s]
Alphabet == {A("read", "", "", FALSE), A("set", "a:k", "2", FALSE), A("mark", "", "x", FALSE), A("res", "r", "1", TRUE), A("late", "t", "1", FALSE), A("ask", "q", "", TRUE), A("export", "o", "1", FALSE),
             A("log", "", "hello", FALSE), A("callback", "", "in a callback", FALSE), A("raise", "RunError", "boom", FALSE), A("raise", "ValueError", "boom", FALSE),
             A("raise", "SystemExit", "", FALSE), A("raise", "SystemExit", "boom", FALSE)}
Read == A("read", "", "", FALSE)
Keys == <<"a:k", "a:s", "b:k">>
E(p, s, o, d, c, x, m, r) == [project |-> p, stack |-> s, org |-> o, dry |-> d, cfg |-> c, sec |-> x, marks |-> m, refuse |-> r, keys |-> Keys, slow |-> 0]
Envs == {E("a", "dev", "", TRUE, <<>>, <<>>, TRUE, <<>>), E("a", "prod", "org", FALSE, << <<"a:k", "1">> >>, <<"a:k">>, TRUE, <<>>),
         E("b", "dev", "me", FALSE, << <<"a:k", "x">>, <<"b:k", "">> >>, <<"b:k">>, FALSE, <<"r">>)}
Main == [e |-> E("main", "main", "", FALSE, << <<"main:k", "v">> >>, <<"main:k">>, TRUE, <<>>), cfg |-> << <<"main:k", "v">> >>]
VARIABLES prog, envs, how, ctx, pc, st, done
vars == <<prog, envs, how, ctx, pc, st, done>>
Caller(i) == IF how = "nest" /\ i = 2 THEN 1 ELSE 3
\* the programs grow first; no resource is made twice
Fresh(p) == {a \in Alphabet : a.a \in {"res", "late", "ask"} => a \notin RangeS(p)}
Init == prog = << <<>>, <<>> >> /\ envs \in Envs \X Envs /\ how \in {"seq", "par", "nest"} /\ ctx = [c \in {3} |-> Main] /\ pc = <<0, 0>> /\ st = <<{}, {}>> /\ done = FALSE
Grow == /\ pc = <<0, 0>>
        /\ \/ Len(prog[1]) < Len1 /\ prog[2] = <<>> /\ \E a \in Fresh(prog[1]) : prog' = <<Append(prog[1], a), <<>> >>
           \/ prog[1] # <<>> /\ Len(prog[2]) < Len2 /\ \E a \in Fresh(prog[2]) : prog' = <<prog[1], Append(prog[2], a)>>
        /\ UNCHANGED <<envs, how, ctx, pc, st, done>>
Full(i) == IF how = "nest" /\ i = 1 THEN << prog[1][1], A("up", "u1", "", FALSE) >> \o SubSeq(prog[1], 2, Len(prog[1])) \o <<Read>> ELSE prog[i] \o <<Read>>
Ended(i) == pc[i] > 0 /\ (pc[i] > Len(Full(i)) \/ st[i].stop)
Begins(i) == /\ prog[2] # <<>> /\ pc[i] = 0
             /\ (i = 2 /\ how = "seq") => Ended(1)
             /\ (i = 2 /\ how = "nest") => pc[1] > 0 /\ ~Ended(1) /\ Full(1)[pc[1]].a = "up"
             /\ LET mine == [ctx[Caller(i)] EXCEPT !.e = envs[i], !.cfg = envs[i].cfg] IN
                /\ ctx' = [c \in DOMAIN ctx \cup {i} |-> IF c = i THEN mine ELSE ctx[c]]
                /\ st' = [st EXCEPT ![i] = [cfg |-> mine.cfg, mark |-> "", seen |-> <<>>, sent |-> {}, out |-> {}, logs |-> <<>>, errs |-> {}, stop |-> FALSE]]
             /\ pc' = [pc EXCEPT ![i] = 1] /\ UNCHANGED <<prog, envs, how, done>>
Does(i) == /\ pc[i] > 0 /\ ~Ended(i)
           /\ (Full(i)[pc[i]].a = "up") => Ended(2)
           /\ LET s == Act(ctx[i].e, Full(i)[pc[i]], [st[i] EXCEPT !.cfg = ctx[i].cfg]) IN st' = [st EXCEPT ![i] = s] /\ ctx' = [ctx EXCEPT ![i].cfg = s.cfg]
           /\ pc' = [pc EXCEPT ![i] = @ + 1] /\ UNCHANGED <<prog, envs, how, done>>
Over == Ended(1) /\ (Ended(2) \/ (how = "nest" /\ pc[2] = 0)) /\ ~done
Runs(i) == [id |-> IF i = 1 THEN "u0" ELSE "u1", op |-> IF envs[i].dry THEN "preview" ELSE "up", runs |-> <<envs[i]>>, prog |-> Full(i), own |-> TRUE]
Item == [ups |-> <<Runs(1), Runs(2)>>, order |-> CASE how = "seq" -> << <<"u0">>, <<"u1">> >> [] how = "par" -> << <<"u0", "u1">> >> [] OTHER -> << <<"u0">> >>]
Finish == Over /\ done' = TRUE /\ (IF Show THEN PrintT("@@" \o ToJson(Item)) ELSE TRUE) /\ UNCHANGED <<prog, envs, how, ctx, pc, st>>
Next == Grow \/ Begins(1) \/ Begins(2) \/ Does(1) \/ Does(2) \/ Finish
Spec == Init /\ [][Next]_vars
Alone == \A i \in {1, 2} : Ended(i) => st[i] = Run(envs[i], Full(i))
CallersSettings == ctx[3] = Main /\ (1 \in DOMAIN ctx => ctx[1].e = envs[1])
\* a run whose program ends it badly is a failure; one whose errors are none had everything happen
Ends == \A i \in {1, 2} : Ended(i) => ((\E k \in DOMAIN Full(i) : k < pc[i] /\ Full(i)[k].a = "raise" /\ Full(i)[k].v # "") => st[i].errs # {})
Inv == Alone /\ CallersSettings /\ Ends
===========================================================================
