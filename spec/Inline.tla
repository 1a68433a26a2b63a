------------------------------ MODULE Inline ------------------------------
(***************************************************************************)
(* Inline programs (C26): what a run sees, sends and ends with is a        *)
(* function of its own environment and program, whatever ran before it in  *)
(* the process, runs at the same time, or runs inside it; and the caller's *)
(* own settings are as before.                                             *)
(* e = [project, stack, org, dry, cfg (rows key, value), sec (keys), marks *)
(* (does the engine know secrets), refuse (names), keys (those read)].     *)
(* Actions: [a, n, v, s].                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RangeS(s) == {s[i] : i \in DOMAIN s}
Lookup(cfg, k) == IF \E i \in DOMAIN cfg : cfg[i][1] = k THEN "=" \o cfg[CHOOSE i \in DOMAIN cfg : cfg[i][1] = k][2] ELSE "none"
Set(cfg, k, v) == SelectSeq(cfg, LAMBDA r : r[1] # k) \o << <<k, v>> >>
B(b) == IF b THEN "true" ELSE "false"
See(e, cfg) == <<e.project, e.stack, e.org, B(e.dry)>> \o [i \in DOMAIN e.keys |-> Lookup(cfg, e.keys[i]) \o (IF e.keys[i] \in RangeS(e.sec) THEN "!" ELSE "")]
\* st = [cfg, mark, seen, sent, out, logs, errs, stop]
Act(e, a, st) ==
  CASE a.a = "read" -> [st EXCEPT !.seen = Append(@, See(e, st.cfg))]
    [] a.a = "set" -> [st EXCEPT !.cfg = Set(@, a.n, a.v)]
    [] a.a = "mark" -> [st EXCEPT !.mark = @ \o a.v]
    [] a.a \in {"res", "late", "ask"} -> [st EXCEPT !.sent = @ \cup {<<a.n, a.v, B(a.s /\ e.marks), IF a.a = "late" THEN "*" ELSE st.mark>>},
                                             !.errs = IF a.n \in RangeS(e.refuse) THEN @ \cup {<<"inline", "refused " \o a.n>>} ELSE @]
    [] a.a = "export" -> [st EXCEPT !.out = {r \in @ : r[1] # a.n} \cup {<<a.n, a.v>>}]
    [] a.a = "log" -> [st EXCEPT !.logs = Append(@, a.v)]
    [] a.a = "callback" -> [st EXCEPT !.errs = @ \cup {<<"inline", a.v>>}]
    [] a.a = "raise" /\ a.n = "SystemExit" /\ a.v = "" -> [st EXCEPT !.stop = TRUE]
    [] a.a = "raise" -> [st EXCEPT !.errs = @ \cup {<<IF a.n = "RunError" THEN "run" ELSE "inline", a.v>>}, !.stop = TRUE]
    [] OTHER -> st
RECURSIVE Exec(_, _, _, _)
Exec(e, prog, i, st) == IF i > Len(prog) \/ st.stop THEN st ELSE Exec(e, prog, i + 1, Act(e, prog[i], st))
Run(e, prog) == Exec(e, prog, 1, [cfg |-> e.cfg, mark |-> "", seen |-> <<>>, sent |-> {}, out |-> {}, logs |-> <<>>, errs |-> {}, stop |-> FALSE])
=============================================================================
