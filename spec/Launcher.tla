----------------------------- MODULE Launcher -----------------------------
(***************************************************************************)
(* The launcher of programs (C30): the program runs as the main program,   *)
(* once, in the environment the host gave; how the process ends, and what  *)
(* is logged, tells how the run ended. On Inline's actions, and            *)
(*   [a |-> "exit", v]  the program ends itself: by sys.exit(v)            *)
(* Kinds of errors: run (the program says so itself), other, exit.         *)
(***************************************************************************)
EXTENDS Inline
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNum(s) == Len(s) > 0 /\ \A i \in 1 .. Len(s) : SubSeq(s, i, i) \in Digits
LAct(e, a, st) == IF a.a = "exit" THEN [st EXCEPT !.stop = TRUE, !.errs = IF a.v \in {"", "0"} THEN @ ELSE @ \cup {<<"exit", a.v>>}] ELSE Act(e, a, st)
RECURSIVE LExec(_, _, _, _)
LExec(e, prog, i, st) == IF i > Len(prog) \/ st.stop THEN st ELSE LExec(e, prog, i + 1, LAct(e, prog[i], st))
Nothing(e) == [cfg |-> e.cfg, mark |-> "", seen |-> <<>>, sent |-> {}, out |-> {}, logs |-> <<>>, errs |-> {}, stop |-> FALSE]
\* a program that cannot be read fails by that
LRun(e, prog, kind) == IF kind = "ok" THEN LExec(e, prog, 1, Nothing(e)) ELSE [Nothing(e) EXCEPT !.errs = {<<"unreadable", "">>}]
Code(x) == CASE x[1] = "run" -> "1" [] x[1] \in {"inline", "unreadable"} -> "32" [] IsNum(x[2]) -> x[2] [] OTHER -> "1"
Codes(r) == IF r.errs = {} THEN {"0"} ELSE {Code(x) : x \in r.errs}
\* the host takes 32 to mean that the user was told: it shows nothing more
Told(x) == x[1] # "exit"
===========================================================================
