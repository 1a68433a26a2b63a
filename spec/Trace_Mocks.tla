---------------------------- MODULE Trace_Mocks ----------------------------
(***************************************************************************)
(* Checks recorded runs of programs under mocks against Mocks.             *)
(***************************************************************************)
EXTENDS Mocks, Json, IOUtils

Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done, reg

Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> 1, prop |-> "C28", clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[2] THEN TRUE ELSE Bad(cl[1])

QuadOk(q, got) == /\ ~got.hang /\ ~got.fail /\ ~q.fail /\ q.k = got.known /\ q.s = got.secret
                  /\ (q.k => Eq(q.v, got.v)) /\ (~q.k => HasUnk(got.v) \/ got.v.t = "null" \/ Eq(q.v, got.v))
DepsOk(q, got) == q.d = ToSet(got.deps)

ShownTo(it, name) == SelectSeq(it.seen, LAMBDA s : s.name = name)
AskedOf(it, tok) == SelectSeq(it.called, LAMBDA s : s.token = tok)
Unk == "04da6b54-80e4-46f7-96ec-b56ff0331ba9"

ResClauses(it, c, urns, n) ==
  LET r == it.res[n] ss == ShownTo(it, r.name)
  IN {<<"shown-once", Len(ss) = 1>>} \cup
     (IF Len(ss) # 1 THEN {}
      ELSE LET s == ss[1]
           IN {<<"shown-type", s.typ = r.type>>, <<"shown-inputs", Eq(Shown(it.dry, c.res[n].ins), s.inputs)>>,
               <<"shown-id", s.rid = IF r.kind = "read" THEN r.rid ELSE "">>,
               <<"shown-custom", s.custom = IF r.kind = "read" THEN "none" ELSE IF r.kind = "comp" THEN "no" ELSE "yes">>,
               <<"shown-provider", s.provider = IF r.prov = 0 THEN ""
                                                ELSE urns[r.prov] \o "::" \o (IF it.res[r.prov].engid = "" THEN Unk ELSE it.res[r.prov].engid)>>})
OutClauses(it, c, n) ==
  LET x == c.res[n] p == it.props[n]
  IN {<<"urn", QuadOk(UrnOut(x), p.urn)>>} \cup {<<"id", QuadOk(IdOut(x), p.id[i])>> : i \in DOMAIN p.id}
     \cup {<<"output", QuadOk(OutProp(c, x, p.props[i][1]), p.props[i][2])>> : i \in DOMAIN p.props}
     \cup {<<"output-depends", DepsOk(OutProp(c, x, p.props[i][1]), p.props[i][2])>> : i \in DOMAIN p.props}
GetClauses(it, c, j) ==
  LET g == it.gets[j] n == Len(it.res) + j p == it.props[n] x == Found(c, g.of, ToString(n))
  IN {<<"looked-up-urn", p.urn.v = Str(x.urn)>>} \cup {<<"looked-up-id", it.res[g.of].kind = "read" \/ QuadOk(IdOut(x), p.id[i])>> : i \in DOMAIN p.id}
     \cup {<<"looked-up", QuadOk(OutProp(c, x, p.props[i][1]), p.props[i][2])>> : i \in DOMAIN p.props}
CallClauses_(it, c, j) ==
  LET x == it.calls[j] got == it.results[j] a == Ser(c, x.args, FALSE) as == AskedOf(it, x.tok) r == Ser(c, x.ret, FALSE).w
      y == [ans |-> [ret |-> NonNull(r)]]
  IN {<<"call-failure", got.fail = (a.fail \/ x.raises \/ x.failures # <<>>)>>, <<"called-once", Len(as) = IF a.fail THEN 0 ELSE 1>>}
     \cup (IF Len(as) # 1 \/ a.fail THEN {} ELSE {<<"called-with", Eq(Shown(it.dry, NonNull(a.w)), as[1].args)>>, <<"call-provider", as[1].provider = "">>})
     \cup (IF got.fail \/ a.fail THEN {} ELSE {<<"call-result", Eq(Result(c, y), got.v)>>})

Level == [debug |-> "DEBUG", info |-> "INFO", warn |-> "WARNING", error |-> "ERROR"]
RunFails(it, c) == \/ \E n \in DOMAIN c.res : c.res[n].broken
                   \/ \E n \in DOMAIN it.res : it.res[n].mockfail
                   \/ \E j \in DOMAIN it.gets : it.gets[j].of = 0
CallFails(it, c) == \E j \in DOMAIN it.calls : it.calls[j].raises \/ it.calls[j].failures # <<>> \/ Ser(c, it.calls[j].args, FALSE).fail
Urns(it) == IF Len(it.urns) = Len(it.res) THEN it.urns ELSE [i \in DOMAIN it.res |-> "urn:pulumi:s::p::t::n"]
Check(it) ==
  LET c0 == [Base(it) EXCEPT !.res = reg]
      rf == RunFails(it, c0)
      cf == ~rf /\ CallFails(it, c0)
  IN /\ Judge({<<"told", it.told = <<it.project, it.stack, it.dry>> >>, <<"ends", it.end # "hang">>,
               <<"logged", it.said = [i \in DOMAIN it.logs |-> <<Level[it.logs[i][1]], it.logs[i][2]>>]>>,
               <<"failure", cf \/ (it.end = "error") = rf>>})
     /\ (IF rf \/ Len(it.urns) # Len(it.res) THEN TRUE
         ELSE LET c == c0
              IN /\ Judge({<<"urn-form", UrnOk(it, it.urns, n)>> : n \in DOMAIN it.res})
                 /\ Judge(UNION {ResClauses(it, c, it.urns, n) : n \in DOMAIN it.res})
                 /\ Judge({<<"every-call-made", Len(it.results) = Len(it.calls)>>, <<"nothing-else", Len(it.seen) = Len(it.res)>>})
                 /\ (IF Len(it.results) # Len(it.calls) THEN TRUE ELSE Judge(UNION {CallClauses_(it, c, j) : j \in DOMAIN it.calls}))
                 /\ (IF it.end # "ok" THEN TRUE
                     ELSE /\ Judge(UNION {OutClauses(it, c, n) : n \in DOMAIN it.res})
                          /\ Judge(UNION {GetClauses(it, c, j) : j \in DOMAIN it.gets})))

Init == tid \in 1 .. Len(Items) /\ done = FALSE /\ reg = <<>>
\* resource after resource is registered
Register ==
  /\ Len(reg) < Len(Items[tid].res)
  /\ reg' = Append(reg, Fact(Items[tid], Urns(Items[tid]), reg))
  /\ UNCHANGED <<tid, done>>
Finish == /\ Len(reg) = Len(Items[tid].res) /\ ~done /\ Check(Items[tid]) /\ done' = TRUE /\ UNCHANGED <<tid, reg>>
Next == Register \/ Finish
Spec == Init /\ [][Next]_<<tid, done, reg>>
=============================================================================
