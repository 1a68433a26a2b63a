---------------------------- MODULE Workspace ----------------------------
(***************************************************************************)
(* What a workspace of the Automation API stands for (C26): the stacks of  *)
(* its directory, with the configuration, outputs and state of each, the   *)
(* plugins of its home and the environment of its commands. Every          *)
(* operation is a step of this machine, whether it is made through the     *)
(* workspace, through a stack, or by somebody else.                        *)
(* w.dirs: by directory; w.homes: plugins, by home. Rows are sequences of  *)
(* texts; sets of rows where order means nothing.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RangeS(s) == {s[i] : i \in DOMAIN s}
Ok(l) == [t |-> "ok", c |-> "", l |-> l]
Err(c) == [t |-> "error", c |-> c, l |-> {}]
Colon(k) == \E i \in 1 .. Len(k) : SubSeq(k, i, i) = ":"
Full(p, k) == IF Colon(k) THEN k ELSE p \o ":" \o k
RECURSIVE Idx(_, _, _)
Idx(st, n, i) == IF i > Len(st) THEN 0 ELSE IF st[i].n = n THEN i ELSE Idx(st, n, i + 1)
NewStack(n, sp) == [n |-> n, sp |-> sp, cfg |-> {}, has |-> FALSE, last |-> {}, outs |-> {}, dep |-> "null", rc |-> "none", lu |-> "none", uip |-> "false", url |-> "none"]
NewDir(proj, sp, home) == [proj |-> proj, sp |-> sp, home |-> home, user |-> "nobody", cur |-> "", st |-> <<>>]
PutStack(w, d, i, s) == [w EXCEPT !.dirs[d].st[i] = s]
Drop(sq, i) == SubSeq(sq, 1, i - 1) \o SubSeq(sq, i + 1, Len(sq))
SetKeys(p, cfg, kv) == LET ks == {Full(p, kv[i][1]) : i \in DOMAIN kv}
                       IN {r \in cfg : r[1] \notin ks} \cup {<<Full(p, kv[i][1]), kv[i][2], kv[i][3]>> : i \in DOMAIN kv}
DelKeys(p, cfg, kv) == {r \in cfg : r[1] \notin {Full(p, kv[i][1]) : i \in DOMAIN kv}}
Num(i) == ToString(i)
StackRow(D, i) == <<D.st[i].n, IF D.cur = D.st[i].n THEN "true" ELSE "false", D.st[i].lu, D.st[i].uip, D.st[i].rc, D.st[i].url>>
CurIdx(D) == IF D.cur = "" THEN 0 ELSE Idx(D.st, D.cur, 1)

(* One operation: [w, r]. o.f says which of the operation's commands fails, and how. *)
Step(w, o) ==
  LET D == w.dirs[o.d]
      i == Idx(D.st, o.s, 1)
      S == D.st[i]
      same(r) == [w |-> w, r |-> r]
      with(s, r) == [w |-> PutStack(w, o.d, i, s), r |-> r]
      f1 == o.f.at = 1
      f2 == o.f.at = 2
      created(r) == [w |-> [w EXCEPT !.dirs[o.d].st = Append(@, NewStack(o.s, D.sp)), !.dirs[o.d].cur = o.s], r |-> r]
      selected(r) == [w |-> [w EXCEPT !.dirs[o.d].cur = o.s], r |-> r]
      needs == {"set", "get", "getall", "setall", "rmcfg", "rmall", "refresh", "outputs", "export", "import", "remove", "select"}
      H == w.homes[D.home]
      first == IF f1 THEN o.f.c ELSE IF i > 0 THEN "StackAlreadyExistsError" ELSE ""
  IN CASE o.op = "setenv" -> [w |-> [w EXCEPT !.dirs[o.d].user = o.s], r |-> Ok({})]
       [] o.op = "deploy" -> IF i = 0 THEN same(Ok({}))
                             ELSE with([S EXCEPT !.has = TRUE, !.last = S.cfg, !.outs = RangeS(o.kv), !.dep = o.x.dep, !.rc = o.x.rc, !.lu = o.x.lu, !.uip = o.x.uip, !.url = o.x.url], Ok({}))
       [] o.op = "cos" -> IF first = "" THEN created(Ok({}))
                          ELSE IF first # "StackAlreadyExistsError" THEN same(Err(first))
                          ELSE IF f2 THEN same(Err(o.f.c))
                          ELSE IF i = 0 THEN same(Err("StackNotFoundError")) ELSE selected(Ok({}))
       [] f1 -> same(Err(o.f.c))
       [] o.op = "create" -> IF i > 0 THEN same(Err("StackAlreadyExistsError")) ELSE created(Ok({}))
       [] o.op \in needs /\ i = 0 -> same(Err("StackNotFoundError"))
       [] o.op = "select" -> selected(Ok({}))
       [] o.op = "remove" -> IF S.rc \notin {"none", "0"} THEN same(Err("CommandError"))
                             ELSE [w |-> [w EXCEPT !.dirs[o.d].st = Drop(@, i), !.dirs[o.d].cur = IF @ = o.s THEN "" ELSE @], r |-> Ok({})]
       [] o.op = "list" -> same(Ok({<<Num(j)>> \o StackRow(D, j) : j \in DOMAIN D.st}))
       [] o.op = "current" -> same(Ok(IF CurIdx(D) = 0 THEN {} ELSE {StackRow(D, CurIdx(D))}))
       [] o.op \in {"set", "setall"} -> with([S EXCEPT !.cfg = SetKeys(D.proj, S.cfg, o.kv)], Ok({}))
       [] o.op = "get" -> LET got == {r \in S.cfg : r[1] = Full(D.proj, o.kv[1][1])}
                          IN same(IF got = {} THEN Err("CommandError") ELSE Ok({<<r[2], r[3]>> : r \in got}))
       [] o.op = "getall" -> same(Ok(S.cfg))
       [] o.op \in {"rmcfg", "rmall"} -> with([S EXCEPT !.cfg = DelKeys(D.proj, S.cfg, o.kv)], Ok({}))
       [] o.op = "refresh" -> IF ~S.has THEN same(Err("CommandError")) ELSE with([S EXCEPT !.cfg = S.last], IF f2 THEN Err(o.f.c) ELSE Ok({}))
       [] o.op = "outputs" -> same(IF f2 THEN Err(o.f.c) ELSE Ok(S.outs))
       [] o.op = "export" -> same(Ok({<<S.dep>>}))
       [] o.op = "import" -> with([S EXCEPT !.dep = o.x.dep], Ok({}))
       [] o.op = "whoami" -> same(Ok({<<D.user>>}))
       [] o.op = "plugins" -> same(Ok({<<Num(j)>> \o H[j] : j \in DOMAIN H}))
       [] o.op = "install" -> [w |-> [w EXCEPT !.homes[D.home] = IF \E j \in DOMAIN @ : SubSeq(@[j], 1, 3) = SubSeq(o.p, 1, 3) THEN @ ELSE Append(@, o.p)], r |-> Ok({})]
       \* o.p: name (any if empty), kind, version (any if empty)
       [] o.op = "uninstall" -> LET hit(r) == r[2] = o.p[2] /\ o.p[1] \in {"", r[1]} /\ o.p[3] \in {"", r[3]}
                                IN [w |-> [w EXCEPT !.homes[D.home] = SelectSeq(@, LAMBDA r : ~hit(r))], r |-> Ok({})]
       [] OTHER -> same(Ok({}))

(* Which versions of the CLI a workspace accepts: 3.1.0 or later of the same major version. v = [ok, major, minor, patch, pre, txt] *)
Fits(v) == v.ok /\ v.major = 3 /\ (v.minor > 1 \/ (v.minor = 1 /\ (v.patch > 0 \/ ~v.pre)))
Version(v, optout) == IF optout THEN (IF v.ok THEN Ok({<<v.txt>>}) ELSE Ok({<<"unknown">>}))
                      ELSE IF Fits(v) THEN Ok({<<v.txt>>}) ELSE Err("InvalidVersionError")
=============================================================================
