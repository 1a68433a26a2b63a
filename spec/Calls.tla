------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Functions of providers: `invoke` (a request made at once, whose result  *)
(* is plain data) and `call` (a method of a resource, whose result is an   *)
(* output).  What each sends, when, and what the program gets back.        *)
(*                                                                         *)
(* A context (see Values) has, beside res, the resources' provider facts:  *)
(* ps[i] = [kind, pkg, par, prov, provs, version, url, id, fail].  A call: *)
(* [kind, tok, pkg, args (expression dict), o (options), self, ans].       *)
(***************************************************************************)
EXTENDS Values

\* ---- options of an invocation: what they amount to, and how they merge
NoOpts == [par |-> 0, prov |-> 0, version |-> "", url |-> ""]
Or(a, b, none) == IF b = none THEN a ELSE b
MergeO(a, b) == [par |-> Or(a.par, b.par, 0), prov |-> Or(a.prov, b.prov, 0), version |-> Or(a.version, b.version, ""), url |-> Or(a.url, b.url, "")]
RECURSIVE NormO(_, _)
NormO(cs, o) ==
  CASE o.k = "none" -> NoOpts
    [] o.k = "opts" -> [par |-> o.par, prov |-> o.prov, version |-> o.version, url |-> o.url]
    [] o.k = "same" -> NormO(cs, cs[o.j].o)
    [] o.k = "merge" -> MergeO(NormO(cs, o.a), NormO(cs, o.b))

\* ---- providers: the nearest provider, going up, of a package (0: none)
OfPkg(c, l, pkg) == {i \in ToSet(l) : c.ps[i].pkg = pkg /\ c.ps[i].kind = "prov"}
RECURSIVE Handed(_, _, _)
Handed(c, i, pkg) ==
  IF i = 0 THEN 0
  ELSE LET x == c.ps[i] own == OfPkg(c, x.provs, pkg)
       IN IF own # {} THEN CHOOSE k \in own : TRUE
          ELSE IF x.prov # 0 /\ pkg = x.tpkg THEN x.prov
          ELSE Handed(c, x.par, pkg)
CustomKind(k) == k \in {"cust", "read", "get"}

ProvOf(c, cs, x) ==
  IF x.kind = "invoke" THEN LET o == NormO(cs, x.o) IN IF o.prov # 0 THEN o.prov ELSE IF o.par # 0 THEN Handed(c, o.par, x.pkg) ELSE 0
  ELSE IF x.self = 0 \/ ~CustomKind(c.ps[x.self].kind) THEN 0
  ELSE IF c.ps[x.self].prov # 0 THEN c.ps[x.self].prov ELSE Handed(c, c.ps[x.self].par, c.ps[x.self].tpkg)
VersionOf(c, cs, x) == IF x.kind = "invoke" THEN NormO(cs, x.o).version ELSE IF x.self = 0 THEN "" ELSE c.ps[x.self].version
UrlOf(c, cs, x) == IF x.kind = "invoke" THEN NormO(cs, x.o).url ELSE IF x.self = 0 THEN "" ELSE c.ps[x.self].url
\* a provider is named by its URN and ID; one whose ID nobody knows yet by the unknown marker
RefTo(c, i) == [p |-> i, id |-> IF c.ps[i].id = "" THEN "04da6b54-80e4-46f7-96ec-b56ff0331ba9" ELSE c.ps[i].id]

\* ---- the request
Args(c, x) == Ser(c, x.args, x.kind = "call")
\* null arguments are left out
NonNull(w) == LET ix == SelectSeq([i \in 1 .. Len(w.k) |-> i], LAMBDA i : w.l[i].t # "null")
              IN [w EXCEPT !.k = [j \in DOMAIN ix |-> w.k[ix[j]]], !.l = [j \in DOMAIN ix |-> w.l[ix[j]]]]
ArgDeps(c, x, i) == Ser(c, x.args.l[i], TRUE).d
Sends(c, cs, x) == ~Args(c, x).fail /\ (ProvOf(c, cs, x) = 0 \/ ~c.ps[ProvOf(c, cs, x)].fail)

\* ---- what the program gets
Refused(x) == x.ans.err # "" \/ x.ans.failures # <<>>
\* an invocation: the engine's answer as plain data (nothing, if it answered nothing)
Result(c, x) == IF x.ans.ret.k = <<>> THEN NullV ELSE DeserBag(x.ans.ret, c.dry, ToSet(c.internal))
\* a call: an output of the answer; secret if anything in it is; it depends on what the engine says it depends on
CallQ(c, cs, x) ==
  IF ~Sends(c, cs, x) \/ Refused(x) THEN FailQ({}, {})
  ELSE IF x.ans.ret.k = <<>> THEN Q(NullV, TRUE, FALSE, {}, {})
  ELSE LET b == DeserBag(x.ans.ret, c.dry, ToSet(c.internal))
       IN Q([b EXCEPT !.l = [i \in DOMAIN b.l |-> Unwrap(b.l[i])]], TRUE, \E i \in DOMAIN b.l : IsSec(b.l[i]),
            UNION {ToSet(x.ans.rdeps[i][2]) : i \in DOMAIN x.ans.rdeps}, {})
=============================================================================
