-------------------------- MODULE Gen_Workspace --------------------------
(***************************************************************************)
(* Every short history of workspace operations; C26's guarantees hold of   *)
(* every step.                                                             *)
(***************************************************************************)
EXTENDS Workspace, Json
CONSTANTS NOps, Show
VARIABLES w, ops, prev, res, n0
None == [at |-> 0, c |-> ""]
X == [dep |-> "{\"resources\":[]}", rc |-> "1", lu |-> "2021-05-04T10:11:12.123Z", uip |-> "true", url |-> "none"]
O(op, d, s, kv) == [op |-> op, d |-> d, s |-> s, kv |-> kv, p |-> <<>>, x |-> X, f |-> None]
Pl(n, k, v) == <<n, k, v, "10", "none", "none">>
Kvs == {<< <<"k", "v", "false">> >>, << <<"k", "v", "true">> >>, << <<"p:k", "", "false">> >>, << <<"q:k", "-x", "true">> >>}
Base ==
  {O(op, 1, s, <<>>) : op \in {"create", "select", "cos", "remove", "getall", "refresh", "outputs", "export", "deploy"}, s \in {"dev", "prod"}}
  \cup {O(op, 1, s, kv) : op \in {"set", "get", "rmcfg"}, s \in {"dev", "prod"}, kv \in Kvs}
  \cup {O(op, 1, "dev", kv \o <<<<"z", "1", "false">>>>) : op \in {"setall", "rmall"}, kv \in Kvs}
  \cup {O(op, 2, "dev", << <<"k", "w", "false">> >>) : op \in {"create", "set", "get", "rmcfg", "remove"}}
  \cup {O(op, 1, "dev", << <<"o", "1", "false">>, <<"s", "\"x\"", "true">> >>) : op \in {"deploy"}}
  \cup {[O("import", 1, "dev", <<>>) EXCEPT !.x.dep = "{}"]}
  \cup {O(op, d, "", <<>>) : op \in {"list", "current", "plugins", "whoami"}, d \in {1, 2}}
  \cup {O("setenv", d, "me", <<>>) : d \in {1, 2}}
  \cup {[O("install", d, "", <<>>) EXCEPT !.p = p] : d \in {1, 2}, p \in {Pl("aws", "resource", "1.0.0"), Pl("aws", "resource", "2.0.0"), Pl("py", "language", "1.0.0")}}
  \cup {[O("uninstall", 1, "", <<>>) EXCEPT !.p = p] : p \in {<<"aws", "resource", "1.0.0">>, <<"aws", "resource", "">>, <<"", "resource", "">>, <<"py", "language", "">>}}
Faulty == {[o EXCEPT !.f = f] : o \in {o \in Base : o.op \in {"cos", "refresh", "outputs", "set", "get"} /\ o.s = "dev" /\ o.d = 1},
                                f \in {[at |-> n, c |-> c] : n \in {1, 2}, c \in {"CommandError", "StackAlreadyExistsError"}}}
OpSet == Base \cup Faulty
Empty == [dirs |-> <<NewDir("p", "", 1), NewDir("q", "passphrase", 2)>>, homes |-> << <<>>, <<>> >>]
\* where histories start from
Kv(k, v, s) == << <<k, v, s>> >>
Starts == << <<O("create", 1, "dev", <<>>)>>,
             <<O("create", 1, "dev", <<>>), O("set", 1, "dev", Kv("k", "u", "true")), O("deploy", 1, "dev", <<>>), O("set", 1, "dev", Kv("k", "t", "false")),
               O("create", 2, "dev", <<>>), O("set", 2, "dev", Kv("k", "s", "true")), [O("install", 2, "", <<>>) EXCEPT !.p = Pl("aws", "resource", "1.0.0")]>>,
             <<O("create", 1, "dev", <<>>), O("create", 1, "prod", <<>>), O("setall", 1, "dev", Kv("k", "u", "true") \o Kv("q:k", "", "false")), O("set", 1, "prod", Kv("k", "p", "false")),
               [O("deploy", 1, "prod", <<>>) EXCEPT !.x.rc = "0"], [O("install", 1, "", <<>>) EXCEPT !.p = Pl("aws", "resource", "2.0.0")], [O("install", 1, "", <<>>) EXCEPT !.p = Pl("py", "language", "1.0.0")]>> >>
RECURSIVE Run(_, _, _)
Run(x, os, i) == IF i > Len(os) THEN x ELSE Run(Step(x, os[i]).w, os, i + 1)
Init == \E i \in DOMAIN Starts : w = Run(Empty, Starts[i], 1) /\ ops = Starts[i] /\ prev = w /\ res = Ok({}) /\ n0 = Len(Starts[i])
Next == Len(ops) < n0 + NOps /\ \E o \in OpSet : LET e == Step(w, o) IN ops' = Append(ops, o) /\ w' = e.w /\ res' = e.r /\ prev' = w /\ UNCHANGED n0
Spec == Init /\ [][Next]_<<w, ops, prev, res, n0>>
St(x, d, n) == LET i == Idx(x.dirs[d].st, n, 1) IN IF i = 0 THEN [n |-> ""] ELSE x.dirs[d].st[i]
Reads == {"get", "getall", "list", "current", "plugins", "whoami", "outputs", "export"}
Guarantees ==
  LET o == IF Len(ops) = n0 THEN O("none", 1, "", <<>>) ELSE ops[Len(ops)]
      kv == o.kv
      ok ==
        \* reading changes nothing
        /\ (o.op \in Reads => w = prev)
        \* an operation on one stack touches no other, and none of another directory
        /\ \A d \in {1, 2}, n \in {"dev", "prod"} : (d # o.d \/ n # o.s) => St(w, d, n) = St(prev, d, n)
        /\ (o.op \notin {"install", "uninstall"} => w.homes = prev.homes)
        /\ (w.homes[3 - w.dirs[o.d].home] = prev.homes[3 - w.dirs[o.d].home])
        /\ w.dirs[3 - o.d] = prev.dirs[3 - o.d]
        \* what fails at once leaves everything as it was
        /\ (res.t = "error" /\ o.f.at # 2 => w = prev)
        \* what was set is read back with its secrecy; what was removed is gone; the other keys stay
        /\ (o.op \in {"set", "setall"} /\ res.t = "ok" =>
              LET a == St(w, o.d, o.s).cfg  b == St(prev, o.d, o.s).cfg  ks == {Full(w.dirs[o.d].proj, kv[i][1]) : i \in DOMAIN kv}
              IN /\ \A i \in DOMAIN kv : Step(w, [o EXCEPT !.op = "get", !.kv = <<kv[i]>>]).r = Ok({<<kv[i][2], kv[i][3]>>})
                 /\ {r \in a : r[1] \notin ks} = {r \in b : r[1] \notin ks})
        /\ (o.op \in {"rmcfg", "rmall"} /\ res.t = "ok" =>
              LET a == St(w, o.d, o.s).cfg  b == St(prev, o.d, o.s).cfg  ks == {Full(w.dirs[o.d].proj, kv[i][1]) : i \in DOMAIN kv}
              IN /\ \A i \in DOMAIN kv : Step(w, [o EXCEPT !.op = "get", !.kv = <<kv[i]>>]).r = Err("CommandError")
                 /\ a = {r \in b : r[1] \notin ks})
        \* one value per key; the current stack, if any, exists
        /\ \A d \in {1, 2} : /\ \A i \in DOMAIN w.dirs[d].st : \A r, q \in w.dirs[d].st[i].cfg : r[1] = q[1] => r = q
                             /\ (w.dirs[d].cur # "" => Idx(w.dirs[d].st, w.dirs[d].cur, 1) > 0)
                             /\ \A i, j \in DOMAIN w.dirs[d].st : i # j => w.dirs[d].st[i].n # w.dirs[d].st[j].n
        \* creating or selecting ends with that stack, selected, however often it is done
        /\ (o.op = "cos" /\ res.t = "ok" => w.dirs[o.d].cur = o.s /\ Step(w, o).w = w)
        /\ (o.op = "refresh" /\ res.t = "ok" => St(w, o.d, o.s).cfg = St(prev, o.d, o.s).last)
        /\ (o.op = "import" /\ res.t = "ok" => Step(w, [o EXCEPT !.op = "export"]).r = Ok({<<o.x.dep>>}))
  IN ok /\ (IF Len(ops) < n0 + NOps \/ ~Show THEN TRUE ELSE PrintT("@@" \o ToJson([ops |-> ops])))
=============================================================================
