---------------------------- MODULE Gen_Dynamic -----------------------------
(***************************************************************************)
(* An engine deploys, refreshes and destroys a resource whose dynamic      *)
(* provider and inputs change from deployment to deployment; the plugin    *)
(* answers as Dynamic says.  C20's guarantees hold of every history.       *)
(***************************************************************************)
EXTENDS Dynamic, Json
CONSTANTS NReq
VARIABLES pvs, res, todo, hist
vars == <<pvs, res, todo, hist>>

D1(key, v) == [t |-> "dict", k |-> <<key>>, l |-> <<v>>]
Def == [k |-> "default"]
NoV == [given |-> FALSE]
GV(v) == [given |-> TRUE, v |-> v]
NoL == [given |-> FALSE, l |-> <<>>]
GL(l) == [given |-> TRUE, l |-> l]
Base == [check |-> Def, diff |-> Def, create |-> [k |-> "some", id |-> "i", outs |-> NoV], read |-> Def, update |-> Def, delete |-> Def]
Fail1 == [k |-> "some", ins |-> [k |-> "none"], fails |-> GL(<<[p |-> "x", r |-> "no"]>>)]
Adds == [k |-> "some", ins |-> [k |-> "v", v |-> D1("y", Str("c"))], fails |-> GL(<<>>)]
DiffB(c, rs, dbr) == [k |-> "some", changes |-> c, replaces |-> rs, dbr |-> dbr, stables |-> GL(<<"x">>)]
Gone == [k |-> "some", id |-> [given |-> FALSE], outs |-> [k |-> "none"]]
Providers == {
  Base,
  [Base EXCEPT !.create = [k |-> "some", id |-> "j", outs |-> GV(D1("o", Str("1")))], !.check = Adds, !.update = [k |-> "some", outs |-> GV(D1("o", Str("2")))], !.diff = DiffB("T", NoL, "-")],
  [Base EXCEPT !.diff = DiffB("T", GL(<<"x">>), "T"), !.read = [k |-> "some", id |-> [given |-> TRUE, s |-> "k"], outs |-> [k |-> "v", v |-> D1("o", Str("3"))]]],
  [Base EXCEPT !.diff = DiffB("F", NoL, "F"), !.read = Gone],
  [Base EXCEPT !.check = Fail1],
  [Base EXCEPT !.create = [k |-> "raise"], !.delete = [k |-> "raise"]]}
Absent == [exists |-> FALSE, id |-> "", ins |-> EmptyD, outs |-> EmptyD]

Init == /\ \E a, b \in Providers : pvs = <<a, b>>
        /\ res = Absent /\ todo = [do |-> "idle"] /\ hist = <<>>

News(x, p) == [t |-> "dict", k |-> <<"x", PKey>>, l |-> <<Str(x), Prov(p)>>]
Req(op, r) == hist' = Append(hist, [op |-> op, r |-> r]) /\ UNCHANGED pvs
Ans(op, r) == Answer(op, r, pvs[Which(op, r)])
Check == \E x \in {"a", "b"}, p \in 1 .. 2 :
  LET r == [olds |-> res.ins, news |-> News(x, p)] a == Ans("check", r)
  IN /\ todo.do = "idle" /\ Req("check", r) /\ UNCHANGED res
     /\ todo' = IF a.fail \/ a.failures # <<>> THEN todo ELSE [do |-> IF res.exists THEN "diff" ELSE "create", ins |-> a.inputs, drop |-> Absent]
Diff ==
  LET r == [id |-> res.id, olds |-> res.outs, news |-> todo.ins] a == Ans("diff", r)
  IN /\ todo.do = "diff" /\ Req("diff", r) /\ UNCHANGED res
     /\ todo' = IF a.fail THEN [do |-> "idle"]
                ELSE IF a.changes = "none" \/ (a.changes = "unknown" /\ Get(todo.ins, "x") = Get(res.ins, "x")) THEN [do |-> "idle"]
                ELSE IF a.replaces # <<>> THEN (IF a.dbr THEN [todo EXCEPT !.do = "delete-first"] ELSE [todo EXCEPT !.do = "create", !.drop = res])
                ELSE [todo EXCEPT !.do = "update"]
Create ==
  LET r == [props |-> todo.ins] a == Ans("create", r)
  IN /\ todo.do = "create" /\ Req("create", r)
     /\ res' = IF a.fail THEN res ELSE [exists |-> TRUE, id |-> a.id, ins |-> todo.ins, outs |-> a.props]
     /\ todo' = IF ~a.fail /\ todo.drop.exists THEN [todo EXCEPT !.do = "delete-old"] ELSE [do |-> "idle"]
Update ==
  LET r == [id |-> res.id, olds |-> res.outs, news |-> todo.ins] a == Ans("update", r)
  IN /\ todo.do = "update" /\ Req("update", r) /\ todo' = [do |-> "idle"]
     /\ res' = IF a.fail THEN res ELSE [res EXCEPT !.ins = todo.ins, !.outs = a.props]
DeleteOf(x, next, keep) ==
  LET r == [id |-> x.id, props |-> x.outs] a == Ans("delete", r)
  IN /\ Req("delete", r)
     /\ todo' = IF a.fail THEN [do |-> "idle"] ELSE next
     /\ res' = IF keep \/ a.fail THEN res ELSE Absent
Delete ==
  \/ todo.do = "idle" /\ res.exists /\ DeleteOf(res, todo, FALSE)
  \/ todo.do = "delete-first" /\ DeleteOf(res, [todo EXCEPT !.do = "create"], FALSE)
  \/ todo.do = "delete-old" /\ DeleteOf(todo.drop, [do |-> "idle"], TRUE)
Read ==
  LET r == [id |-> res.id, props |-> res.outs] a == Ans("read", r)
  IN /\ todo.do = "idle" /\ res.exists /\ Req("read", r) /\ UNCHANGED todo
     /\ res' = IF a.fail THEN res ELSE IF a.id = "" THEN Absent ELSE [res EXCEPT !.id = a.id, !.outs = a.props]
Next == Len(hist) < NReq /\ (Check \/ Diff \/ Create \/ Update \/ Delete \/ Read)
Spec == Init /\ [][Next]_vars

Last1 == hist[Len(hist)]
Guarantees ==
  LET ok ==
        \* a resource always carries the provider that can go on managing it
        /\ res.exists => Get(res.outs, PKey).t = "prov" /\ Get(res.ins, PKey).t = "prov"
        /\ todo.do # "idle" => Get(todo.ins, PKey).t = "prov"
        /\ hist # <<>> =>
             LET h == Last1 w == Which(h.op, h.r)
             IN \* checks, diffs, creations and updates are the new program's, the rest that of whoever made the resource
                /\ h.op \in {"delete", "read"} => w = Get(h.r.props, PKey).n
                /\ h.op \in {"diff", "update"} => w = Get(h.r.news, PKey).n
                /\ h.op \in {"create", "update"} /\ res.exists /\ todo.do = "idle" /\ ~Answer(h.op, h.r, pvs[w]).fail => Get(res.outs, PKey) = Prov(w)
  IN ok /\ (IF Len(hist) < NReq THEN TRUE ELSE PrintT("@@" \o ToJson([pvs |-> pvs, hist |-> hist])))
=============================================================================
