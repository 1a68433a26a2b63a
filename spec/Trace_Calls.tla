---------------------------- MODULE Trace_Calls ----------------------------
(***************************************************************************)
(* Checks what the SDK did with invocations and calls against Calls.tla.   *)
(* An item: [c, calls, same, got]; got[j] = [reqs, raised, exc, v, q].     *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils

Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done

Bad(p, cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> 1, prop |-> p, clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[3] THEN TRUE ELSE Bad(cl[1], cl[2])

ReqClauses(c, cs, x, g) ==
  LET a == Args(c, x)
      want == IF ProvOf(c, cs, x) = 0 THEN <<>> ELSE <<RefTo(c, ProvOf(c, cs, x))>>
      DepsAt(key) == LET i == {k \in DOMAIN g.argdeps : g.argdeps[k][1] = key} IN UNION {ToSet(g.argdeps[k][2]) : k \in i}
      before == (IF ProvOf(c, cs, x) = 0 THEN {} ELSE {ToString(ProvOf(c, cs, x))}) \cup (IF x.kind = "call" THEN UNION {IF a.w.l[i].t = "null" THEN {} ELSE ArgDeps(c, x, i) : i \in DOMAIN x.args.k} ELSE {})
  IN {<<"C16", "arguments", Eq(NonNull(a.w), NonNull(g.args))>>,
      <<"C16", "provider", g.provider = want>>,
      <<"C16", "version", g.version = VersionOf(c, cs, x)>>,
      <<"C16", "url", g.url = UrlOf(c, cs, x)>>,
      <<"C16", "after-what-it-waits-for", before \subseteq ToSet(g.acked)>>}
     \cup (IF x.kind = "invoke" THEN {<<"C16", "accept-resources", g.acceptRes = ~c.noref>>}
           ELSE {<<"C16", "argument-dependencies",
                   \A i \in DOMAIN x.args.k :
                     LET d == ArgDeps(c, x, i) got == DepsAt(x.args.k[i])
                     IN a.w.l[i].t = "null" \/ ({n \in d : ~Local(c, n)} \subseteq got /\ got \subseteq d \cup Sent(c, d))>>,
                 <<"C16", "no-other-dependencies", \A k \in DOMAIN g.argdeps : g.argdeps[k][1] \in ToSet(x.args.k)>>})

HasText(s, t) == \E i \in 1 .. Len(s) - Len(t) + 1 : SubSeq(s, i, i + Len(t) - 1) = t
\* the error says which function failed, and why
Names(x, s) == HasText(s, x.tok) /\ (IF x.ans.err # "" THEN HasText(s, x.ans.err)
                                       ELSE HasText(s, x.ans.failures[1][2]) /\ HasText(s, x.ans.failures[1][1]))

ResultClauses(c, cs, x, g) ==
  IF x.kind = "invoke"
  THEN LET fails == ~Sends(c, cs, x) \/ Refused(x)
       IN {<<"C16", "comes-back", ~g.hang>>, <<"C16", "failures-raise", g.hang \/ fails = g.raised>>}
          \cup (IF g.hang \/ g.raised # fails THEN {}
                ELSE IF fails THEN {<<"C16", "error-names-the-problem", Sends(c, cs, x) => Names(x, g.exc)>>}
                ELSE {<<"C16", "result", Eq(Result(c, x), g.v)>>})
  ELSE LET q == CallQ(c, cs, x)
       IN {<<"C16", "settles", ~g.hang>>, <<"C16", "failures-raise", g.hang \/ g.raised = q.fail>>}
          \cup (IF g.hang \/ g.raised # q.fail THEN {}
                ELSE IF q.fail THEN {<<"C16", "error-names-the-problem", (Sends(c, cs, x) /\ x.ans.err = "") => Names(x, g.exc)>>}
                ELSE {<<"C16", "known", q.k = g.q.known>>, <<"C16", "secret", q.s = g.q.secret>>, <<"C16", "result-dependencies", q.d = ToSet(g.q.deps)>>,
                      <<"C16", "result", q.k /\ g.q.known => Eq(q.v, g.q.v)>>,
                      <<"C16", "unknown-hidden", ~g.q.known => HasUnk(g.q.v) \/ g.q.v.t = "null">>})

Check(it) ==
  LET c == it.c cs == it.calls IN
  /\ Judge({<<"C12", "invoke-options-unchanged", it.same>>, <<"C16", "options-unchanged", it.same>>, <<"C16", "nothing-else-sent", it.extra = 0>>})
  /\ \A j \in DOMAIN it.merged :
       LET n == NormO(cs, it.merged[j].e) g == it.merged[j].got
       IN Judge({<<"C12", "invoke-options-merge", g.par = n.par /\ g.prov = n.prov /\ g.version = n.version /\ g.url = n.url>>})
  /\ \A j \in DOMAIN cs :
       LET g == it.got[j] x == cs[j] IN
       IF ~g.made THEN TRUE
       ELSE /\ Judge({<<"C16", "sent-once", Len(g.reqs) = IF Sends(c, cs, x) THEN 1 ELSE 0>>})
            /\ \A k \in DOMAIN g.reqs : IF Sends(c, cs, x) THEN Judge(ReqClauses(c, cs, x, g.reqs[k])) ELSE TRUE
            /\ Judge(ResultClauses(c, cs, x, g))

Init == tid \in 1 .. Len(Items) /\ done = FALSE
Next == ~done /\ Check(Items[tid]) /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
