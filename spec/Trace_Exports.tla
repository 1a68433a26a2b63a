--------------------------- MODULE Trace_Exports ---------------------------
(***************************************************************************)
(* Checks whole programs against Exports.tla: what the stack's and         *)
(* components' outputs are (C17), what stack references give (C18), how    *)
(* features are asked for (C23), which log messages the engine gets (C29). *)
(***************************************************************************)
EXTENDS Exports, Json, IOUtils

Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done

Bad(p, cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> 1, prop |-> p, clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[3] THEN TRUE ELSE Bad(cl[1], cl[2])

\* optional encodings that a value uses
RECURSIVE Marks(_)
Marks(w) == (IF w.t \in {"sec", "ref", "outv"} THEN {w.t} ELSE {})
            \cup (IF w.t \in {"sec", "outv"} THEN Marks(w.v)
                  ELSE IF w.t \in {"list", "dict"} THEN UNION {Marks(w.l[i]) : i \in DOMAIN w.l} ELSE {})

Ran(it) == it.end.out = "ok" \/ (it.end.out = "error" /\ it.raised /\ it.end.msg = "program")
OutputsOf(it, r) == SelectSeq(it.outputs, LAMBDA o : o.r = r)
WireClauses(it, who, w, got) ==
  {<<"C17", who \o "-sent-once", Len(got) <= 1 /\ (Ran(it) => Len(got) = 1)>>,
   <<"C17", who \o "-failed-not-sent", w.fail => got = <<>>>>,
   <<"C23", who \o "-failed-fails-the-run", w.fail => it.end.out # "ok">>}
  \cup (IF w.fail \/ got = <<>> THEN {}
        ELSE {<<"C17", who, Eq(NonNull(w.w), NonNull(got[1].object))>>, <<"C23", "features-in-" \o who, Marks(w.w) = Marks(got[1].object)>>})
\* what a resource's request uses of optional features
RegClauses(c, g) ==
  LET r == Ser(c, [e |-> "dict", k |-> <<"x">>, l |-> <<g.e>>, form |-> FALSE], g.keep)
  IN IF r.fail THEN {} ELSE {<<"C23", "features-in-requests", Marks(r.w) = Marks(g.w)>>}

QuadClauses(p, q, got) ==
  {<<p, "settles", ~got.hang>>}
  \cup (IF got.hang THEN {} ELSE {<<p, "failure", q.fail = got.fail>>})
  \cup (IF got.hang \/ got.fail \/ q.fail THEN {}
        ELSE {<<p, "known", q.k = got.known>>, <<p, "secret", q.s = got.secret>>, <<p, "value", (q.k /\ got.known) => Eq(q.v, got.v)>>,
              <<p, "unknown-hidden", ~got.known => HasUnk(got.v) \/ got.v.t = "null">>, <<p, "deps", q.d = ToSet(got.deps)>>})

\* every message arrives as often as it was logged, as what it was logged; if the run failed, those that name a resource may be missing
Line(it, l) == [msg |-> l.msg, sev |-> l.sev, urn |-> IF l.res = 0 THEN "" ELSE it.c.res[l.res].urn, stream |-> l.stream, eph |-> l.eph]
Count(xs, y) == Cardinality({i \in DOMAIN xs : xs[i] = y})
LogClauses(it) ==
  LET want == [k \in DOMAIN it.logged |-> Line(it, it.logged[k])]
      now == SelectSeq(it.logged, LAMBDA l : l.res = 0)
      sure == [k \in DOMAIN now |-> Line(it, now[k])]
      got == it.logs
      texts == {want[k].msg : k \in DOMAIN want} \cup {got[k].msg : k \in DOMAIN got}
      n(xs, t) == Cardinality({i \in DOMAIN xs : xs[i].msg = t})
      lines == {want[k] : k \in DOMAIN want} \cup {got[k] : k \in DOMAIN got}
  IN {<<"C29", "at-once", \A k \in DOMAIN now : now[k].now>>,
      <<"C29", "once", \A t \in texts : n(got, t) <= n(want, t) /\ n(got, t) >= n(IF Ran(it) THEN want ELSE sure, t)>>,
      <<"C29", "as-logged", \A y \in lines : Count(got, y) <= Count(want, y) /\ Count(got, y) >= Count(IF Ran(it) THEN want ELSE sure, y)>>}

\* what of a program can make its run fail
Reason(c, it) ==
  \/ \E k \in DOMAIN it.exports : ExportsWire(c, <<<<"x", it.exports[k][2]>>>>).fail
  \/ \E k \in DOMAIN it.regouts : OutputsWire(c, it.regouts[k][2]).fail
  \/ \E k \in DOMAIN it.regs : Ser(c, [e |-> "dict", k |-> <<"x">>, l |-> <<it.regs[k].e>>, form |-> FALSE], it.regs[k].keep).fail
  \/ \E k \in DOMAIN it.gets : it.gets[k].what = "get" /\ RefGet(c, c.res[it.gets[k].r], it.gets[k].name, it.gets[k].required).fail

Check(it) ==
  LET c == it.c IN
  /\ Judge({<<"C17", "finishes", it.end.out # "hang">>, <<"C23", "asks-until-answered", it.reasked = 0>>,
            <<"C23", "only-its-own-features", it.asked \subseteq {"secrets", "resourceReferences", "outputValues"}>>,
            <<"C17", "program-failure-surfaces", it.raised => it.end.out # "ok">>})
  /\ (IF it.featfails \/ it.raised \/ it.failed # <<>> \/ ~it.allsent \/ it.canfail THEN TRUE ELSE Judge({<<"C17", "fails-for-a-reason", it.end.out = "ok" \/ Reason(c, it)>>}))
  /\ (IF it.featfails THEN TRUE
      ELSE /\ Judge(WireClauses(it, "stack-outputs", ExportsWire(c, it.exports), OutputsOf(it, 0)))
           /\ \A k \in DOMAIN it.regs : Judge(RegClauses(c, it.regs[k]))
           /\ \A k \in DOMAIN it.regouts :
                Judge(WireClauses(it, "component-outputs", OutputsWire(c, it.regouts[k][2]), OutputsOf(it, it.regouts[k][1])))
           /\ \A k \in DOMAIN it.gets :
                LET g == it.gets[k] IN
                IF g.what = "get" THEN Judge(QuadClauses("C18", RefGet(c, c.res[g.r], g.name, g.required), g.got))
                ELSE Judge(QuadClauses("C18", OutProp(c, c.res[g.r], g.what), g.got))
           /\ \A k \in DOMAIN it.srefs :
                Judge({<<"C18", "reads-the-stack", it.srefs[k].id = it.srefs[k].want>>}))
  /\ Judge(LogClauses(it))

Init == tid \in 1 .. Len(Items) /\ done = FALSE
Next == ~done /\ Check([Items[tid] EXCEPT !.asked = ToSet(Items[tid].asked)]) /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
