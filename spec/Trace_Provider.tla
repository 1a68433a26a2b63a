--------------------------- MODULE Trace_Provider ---------------------------
(***************************************************************************)
(* Checks recorded Construct and Call requests, each against what Provider *)
(* says of it alone.                                                       *)
(***************************************************************************)
EXTENDS Provider, Json, IOUtils

Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done

Bad(p, cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> 1, prop |-> p, clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[3] THEN TRUE ELSE Bad(cl[1], cl[2])
J(name, ok) == <<"C15", name, ok>>

QuadOk(q, got) == ~got.hang /\ ~got.fail /\ q.k = got.known /\ q.s = got.secret /\ (q.k => Eq(q.v, got.v)) /\ (~q.k => HasUnk(got.v) \/ got.v.t = "null") /\ q.d = ToSet(got.deps)
\* the outputs inside a value, in order (of keys)
RECURSIVE Inner(_)
RECURSIVE Cats(_)
Cats(xs) == IF xs = <<>> THEN <<>> ELSE xs[1] \o Cats(Tail(xs))
Inner(v) ==
  CASE v.t = "outq" -> <<v.q>>
    [] v.t = "list" -> Cats([i \in DOMAIN v.l |-> Inner(v.l[i])])
    [] v.t = "dict" -> Cats([i \in DOMAIN v.l |-> Inner(v.l[i])])
    [] OTHER -> <<>>
Qs(v, got) == LET a == Inner(v) IN Len(a) = Len(got) /\ \A i \in DOMAIN a : QuadOk(a[i], got[i])

SeenOk(g, seen) ==
  /\ ToSet(g.k) = {seen[i].k : i \in DOMAIN seen} /\ Len(seen) = Len(g.k)
InputClauses(g, s) ==
  LET v == g.l[Lookup(g, s.k)]
  IN {J("input-is-output", s.out = (v.t = "outq")),
      J("input", IF v.t = "outq" THEN s.out => QuadOk(v.q, s.q) ELSE ~s.out => Eq(v, s.v) /\ Qs(v, s.inner))}

RefusedMade(it) == \E i \in ToSet(it.refused) : \E k \in DOMAIN it.kids : it.kids[k].r = i
Check(it) ==
  LET c == it.c
      g == Given(c, it.kind, it.inputs, it.deps)
      st == StateWire(c, it.kind, g, it.state)
      kidsfail == it.raise = "" /\ \E k \in DOMAIN it.kidexprs : KidFails(c, g, it.kidexprs[k])
      fails == it.raise # "" \/ it.refused # <<>> \/ kidsfail \/ \E i \in DOMAIN st : st[i].r.fail
      ans == it.ans
  IN
  /\ Judge({J("answered", ~ans.none /\ ~it.hang), J("runs-the-code", it.began), J("one-at-a-time", it.alone),
            J("information", it.extra.version = "1.2.3" /\ it.extra.schema = it.schema /\ it.extra.accepts /\ it.extra.refused)})
  /\ (IF ~it.began \/ ans.none THEN TRUE
      ELSE
      /\ Judge({J("project", it.settings.project = it.want.project), J("stack", it.settings.stack = it.want.stack), J("preview", it.settings.dry = it.want.dry),
                J("config", it.settings.config = it.want.config), J("secret-config", ToSet(it.settings.secretkeys) = ToSet(it.want.secretkeys)),
                J("names", it.asked[1] = it.asked[2]), J("inputs", SeenOk(g, it.seen))})
      /\ (IF ~SeenOk(g, it.seen) THEN TRUE ELSE \A i \in DOMAIN it.seen : Judge(InputClauses(g, it.seen[i])))
      /\ \A i \in DOMAIN it.comp :
           LET p == it.comp[i] o == it.reqopts
           IN Judge({J("option-parent", p.parent = o.parent), J("option-dependencies", ToSet(p.deps) = ToSet(o.deps)),
                     J("option-aliases", ToSet(p.aliases) = ToSet(o.aliases)), J("option-protect", p.protect = o.protect), J("type", p.type = o.type)})
      /\ \A k \in DOMAIN it.kids :
           LET kid == it.kids[k] r == Ser(c, Subst(g, kid.e), FALSE)
               ps == {i \in DOMAIN it.reqopts.providers : it.reqopts.providers[i][1] = kid.pkg}
           IN Judge({J("child-inputs", ~r.fail /\ Eq(NoNulls(r.w), NoNulls(kid.w))),
                     J("child-provider", it.kind = "construct" => kid.provider = (IF ps = {} THEN "" ELSE it.reqopts.providers[CHOOSE i \in ps : TRUE][2])),
                     J("child-parent", kid.parent = (IF it.kind = "construct" THEN c.res[1].urn ELSE "")),
                     J("child-deps", ~r.fail => \A i \in DOMAIN kid.pdeps : Sent(c, r.d) = ToSet(kid.pdeps[i][2]))})
      /\ Judge({J("failure", fails = ans.err), J("program-failure-reported", it.raise # "" /\ ans.err /\ it.refused = <<>> => ans.msg = "body"),
                J("waits-for-its-resources", ~ans.err => it.pending = <<>>), J("all-registered", ~ans.err => Len(it.registered) = it.nres)})
      /\ (IF ans.err \/ fails THEN TRUE
          ELSE LET there == SelectSeq(st, LAMBDA s : s.r.w.t # "null")
                   d(k) == UNION {ToSet(ans.deps[i][2]) : i \in {j \in DOMAIN ans.deps : ans.deps[j][1] = k}}
               IN Judge({J("urn", it.kind = "construct" => ans.urn = c.res[1].urn),
                         J("state", Eq(NoNulls([t |-> "dict", k |-> [i \in DOMAIN there |-> there[i].k], l |-> [i \in DOMAIN there |-> there[i].r.w]]), NoNulls(ans.state))),
                         J("state-deps", \A i \in DOMAIN st : st[i].r.w.t # "null" => st[i].r.d = d(st[i].k)),
                         J("failures", it.kind = "call" => ans.failures = it.failures)})))

Init == tid \in 1 .. Len(Items) /\ done = FALSE
Next == ~done /\ Check(Items[tid]) /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
