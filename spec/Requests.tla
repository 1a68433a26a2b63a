------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* What a resource's options mean: merging (C12), transformations (C14),   *)
(* aliases (C13), providers (C11), and the request they produce (C10).     *)
(*                                                                         *)
(* A program P is [res |-> <<record>>, stacktf |-> <<tf>>, noref |-> str]. *)
(* A resource record: [kind, type, pkg, name, tr, props |-> <<<<k, v>>>>,  *)
(* o |-> option expression].  Resource 0 is the stack.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Range1(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
\* ---- C12: normal form of option expressions
Empty == [par |-> 0, protect |-> "N", dbr |-> "N", retain |-> "N", prov |-> 0, provs |-> <<>>, ignore |-> <<>>, roc |-> <<>>,
          aso |-> <<>>, deps |-> <<>>, aliases |-> <<>>, tf |-> <<>>, version |-> "", url |-> "", importId |-> "", urn |-> "",
          ct |-> <<>>, id |-> <<>>]
RecNorm(e) ==
  [par |-> Get(e, "par", 0), protect |-> Get(e, "protect", "N"), dbr |-> Get(e, "dbr", "N"), retain |-> Get(e, "retain", "N"),
   prov |-> Get(e, "prov", 0), provs |-> IF Has(e, "provs") THEN e.provs.l ELSE <<>>, ignore |-> Get(e, "ignore", <<>>),
   roc |-> Get(e, "roc", <<>>), aso |-> Get(e, "aso", <<>>), deps |-> IF Has(e, "deps") THEN e.deps.l ELSE <<>>,
   aliases |-> Get(e, "aliases", <<>>), tf |-> Get(e, "tf", <<>>), version |-> Get(e, "version", ""), url |-> Get(e, "url", ""),
   importId |-> Get(e, "import", ""), urn |-> Get(e, "urn", ""), ct |-> IF Has(e, "ct") THEN e.ct.v ELSE <<>>,
   id |-> IF Has(e, "id") THEN <<e.id>> ELSE <<>>]
\* the second wins for single values; collections are concatenated
Over(a, b, none) == IF b = none THEN a ELSE b
Merge(a, b) ==
  [par |-> Over(a.par, b.par, 0), protect |-> Over(a.protect, b.protect, "N"), dbr |-> Over(a.dbr, b.dbr, "N"),
   retain |-> Over(a.retain, b.retain, "N"), prov |-> Over(a.prov, b.prov, 0), provs |-> a.provs \o b.provs,
   ignore |-> a.ignore \o b.ignore, roc |-> a.roc \o b.roc, aso |-> a.aso \o b.aso, deps |-> a.deps \o b.deps,
   aliases |-> a.aliases \o b.aliases, tf |-> a.tf \o b.tf, version |-> Over(a.version, b.version, ""), url |-> Over(a.url, b.url, ""),
   importId |-> Over(a.importId, b.importId, ""), urn |-> Over(a.urn, b.urn, ""), ct |-> Over(a.ct, b.ct, <<>>), id |-> Over(a.id, b.id, <<>>)]
RECURSIVE Norm(_)
Norm(e) == CASE e.k = "none" -> Empty [] e.k = "rec" -> RecNorm(e) [] e.k = "merge" -> Merge(Norm(e.a), Norm(e.b))

\* providers as a function of packages: a later one replaces an earlier one
PkgOf(P, j) == P.res[j].pkg
ProvPairs(P, l) == {<<PkgOf(P, l[i]), l[i]>> : i \in {n \in DOMAIN l : \A m \in DOMAIN l : m > n => PkgOf(P, l[m]) # PkgOf(P, l[n])}}
PkgsOf(S) == {e[1] : e \in S}

-----------------------------------------------------------------------------
\* ---- C14: transformations.  A state is what is about to be registered.
PropGet(ps, k) == LET h == {i \in DOMAIN ps : ps[i][1] = k} IN IF h = {} THEN "" ELSE ps[CHOOSE i \in h : TRUE][2]
PropSet(ps, k, v) ==
  LET h == {i \in DOMAIN ps : ps[i][1] = k}
  IN IF h = {} THEN Append(ps, <<k, v>>) ELSE [ps EXCEPT ![CHOOSE i \in h : TRUE] = <<k, v>>]
PropDel(ps, k) == SelectSeq(ps, LAMBDA p : p[1] # k)

TfOne(t, s) ==
  CASE t.do = "addprop" -> [s EXCEPT !.props = PropSet(s.props, "plain", PropGet(s.props, "plain") \o t.s)]
    [] t.do = "dropprop" -> [s EXCEPT !.props = PropDel(s.props, "foo_bar")]
    [] t.do = "protect" -> [s EXCEPT !.n.protect = "T"]
    [] t.do = "unprotect" -> [s EXCEPT !.n.protect = "F"]
    [] t.do = "ignore" -> [s EXCEPT !.n.ignore = Append(s.n.ignore, t.s)]
    [] t.do = "version" -> [s EXCEPT !.n.version = t.s]
    [] t.do = "alias" -> [s EXCEPT !.n.aliases = Append(s.n.aliases, [k |-> "alias", name |-> t.s, form |-> ""])]
    [] t.do \in {"reparent", "reparentmut"} -> IF t.r = s.n.par THEN s ELSE [s EXCEPT !.refused = TRUE]
    [] t.do = "unparent" -> IF s.n.par = 0 THEN s ELSE [s EXCEPT !.refused = TRUE]
    [] OTHER -> s   \* "none": returns nothing; "tf": transformations added now come too late
RECURSIVE TfRun(_, _)
TfRun(ts, s) ==
  IF ts = <<>> \/ s.refused THEN s
  ELSE LET t == Head(ts)
           call == [t |-> t.id, props |-> Range1(s.props), protect |-> s.n.protect, ignore |-> s.n.ignore]
           s2 == TfOne(t, s)
       IN TfRun(Tail(ts), [s2 EXCEPT !.calls = Append(s.calls, call)])

N0(P, i) == Norm(P.res[i].o)
\* own first, then each ancestor's outwards; then the stack's registered by the time i is constructed
RECURSIVE OwnAndAncestors(_, _)
OwnAndAncestors(P, i) == IF i = 0 THEN <<>> ELSE N0(P, i).tf \o OwnAndAncestors(P, N0(P, i).par)
TfsOf(P, i) == OwnAndAncestors(P, i) \o SelectSeq(P.stacktf, LAMBDA t : t.at <= i)
Final(P, i) == TfRun(TfsOf(P, i), [props |-> P.res[i].props, n |-> N0(P, i), calls |-> <<>>, refused |-> FALSE])

-----------------------------------------------------------------------------
\* ---- identity.  A URN is [st, pr, qt |-> <<types>>, nm].
Urn(st, pr, qt, nm) == [st |-> st, pr |-> pr, qt |-> qt, nm |-> nm]
RECURSIVE JoinD(_)
JoinD(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "$" \o JoinD(Tail(s))
UrnText(u) == "urn:pulumi:" \o u.st \o "::" \o u.pr \o "::" \o JoinD(u.qt) \o "::" \o u.nm
ChildUrn(pu, ty, nm) == Urn(pu.st, pu.pr, Append(pu.qt, ty), nm)
Below(P, parent, ty, nm) == IF parent = <<>> THEN Urn("stk", "prj", <<ty>>, nm) ELSE ChildUrn(parent[1], ty, nm)

\* U, A, H are tables over the resources constructed before (a parent comes before its children)
ParUrn(U, par) == IF par = 0 THEN <<>> ELSE <<U[par]>>
-----------------------------------------------------------------------------
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* ---- C13
Collapse(P, A, U, i, a, par) ==
  IF a.k = "urn" THEN a.u
  ELSE LET nm == Get(a, "name", P.res[i].name)
           ty == Get(a, "type_", P.res[i].type)
           pu == IF ~Has(a, "parent") THEN ParUrn(U, par)
                 ELSE IF a.parent.p = "root" THEN <<>>
                 ELSE IF a.parent.p \in {"res", "resurn"} THEN <<U[a.parent.r]>> ELSE <<a.parent.u>>
       IN IF pu = <<>> THEN Urn(Get(a, "stack", "stk"), Get(a, "project", "prj"), <<ty>>, nm) ELSE ChildUrn(pu[1], ty, nm)
\* a child named after its parent is assumed to have been named after the parent's former name
InheritedChild(nm, ty, parname, pa) ==
  ChildUrn(pa, ty, IF StartsWith(nm, parname) THEN pa.nm \o SubSeq(nm, Len(parname) + 1, Len(nm)) ELSE nm)
\* an alias that is unknown (in a preview), or part of which is, is left out
UnkAlias(a, par) ==
  a.form = "unk" \/ (a.k = "alias" /\ Get(a, "sform", "") = "unk" /\ (IF Has(a, "parent") THEN a.parent.p = "root" ELSE par = 0))
AliasSet(P, A, U, i, n) ==
  LET own == {Collapse(P, A, U, i, n.aliases[k], n.par) : k \in {x \in DOMAIN n.aliases : ~UnkAlias(n.aliases[x], n.par)}}
      r == P.res[i]
      inh == IF n.par = 0 THEN {}
             ELSE LET pn == P.res[n.par].name
                  IN UNION {{InheritedChild(r.name, r.type, pn, pa)} \cup {InheritedChild(u.nm, u.qt[Len(u.qt)], pn, pa) : u \in own} : pa \in A[n.par]}
  IN own \cup inh

\* ---- C11
\* the package of a resource's type; a provider resource is itself of package "pulumi"
TPkg(P, i) == IF P.res[i].kind = "prov" THEN "pulumi" ELSE P.res[i].pkg
OwnProviders(P, i, n) ==
  LET listed == ProvPairs(P, n.provs)
  IN listed \cup (IF n.prov # 0 /\ TPkg(P, i) \notin PkgsOf(listed) THEN {<<TPkg(P, i), n.prov>>} ELSE {})
HandedDown(P, H, i, n) ==
  LET own == OwnProviders(P, i, n)
  IN own \cup (IF n.par = 0 THEN {} ELSE {e \in H[n.par] : e[1] \notin PkgsOf(own)})
Pick(S, pkg) == LET h == {e \in S : e[1] = pkg} IN IF h = {} THEN 0 ELSE (CHOOSE e \in h : TRUE)[2]
EffProvider(P, H, i, n) ==
  IF n.prov # 0 THEN n.prov
  ELSE LET own == Pick(ProvPairs(P, n.provs), TPkg(P, i))
       IN IF own # 0 THEN own ELSE IF n.par = 0 THEN 0 ELSE Pick(H[n.par], TPkg(P, i))

\* ---- all resources, in order: s = final state, u = urn, a = aliases, h = providers handed down, pr = protection
IsCustom(r) == r.kind \in {"cust", "read", "get", "prov"}
ExplicitUrn(P, i) == P.res[i].urnv   \* for looked-up resources: the URN they are looked up by
\* a provider resource refuses an explicit provider outright; the others refuse one of another package
One(P, T, i) ==
  LET s == Final(P, i)
      n == s.n
      r == P.res[i]
      U == [j \in 1 .. i - 1 |-> T[j].u]
      A == [j \in 1 .. i - 1 |-> T[j].a]
      H == [j \in 1 .. i - 1 |-> T[j].h]
      eff == EffProvider(P, H, i, n)
  IN [s |-> s,
      u |-> IF r.kind = "get" THEN ExplicitUrn(P, i) ELSE Below(P, ParUrn(U, n.par), r.type, r.name),
      a |-> AliasSet(P, A, U, i, n), h |-> HandedDown(P, H, i, n), eff |-> eff,
      prot |-> IF n.protect # "N" THEN n.protect ELSE IF n.par = 0 THEN "F" ELSE T[n.par].prot,
      bad |-> IsCustom(r) /\ r.kind # "prov" /\ eff # 0 /\ P.res[eff].pkg # r.pkg,
      badprov |-> r.kind = "prov" /\ N0(P, i).prov # 0]
RECURSIVE TableFrom(_, _)
TableFrom(P, T) == IF Len(T) = Len(P.res) THEN T ELSE TableFrom(P, Append(T, One(P, T, Len(T) + 1)))
Table(P) == TableFrom(P, <<>>)
Refused(x) == x.s.refused \/ x.bad \/ x.badprov

-----------------------------------------------------------------------------
\* ---- C10: the request.  Names are translated the way the resource translates the names of its inputs.
CamelOf(s) == CASE s = "foo_bar" -> "fooBar" [] s = "baz_qux_one" -> "bazQuxOne" [] s = "foo_bar.sub_key" -> "fooBar.subKey" [] OTHER -> s
TypedIn(s) == CASE s = "foo_bar" -> "fooBar" [] s = "odd" -> "strangeName" [] OTHER -> s
TypedOut(s) == CASE s = "foo_bar" -> "fooBar" [] s = "odd" -> "weirdOut" [] OTHER -> s
InName(r, s) == IF r.tr = "camel" THEN CamelOf(s) ELSE IF r.tr = "typed" THEN TypedIn(s) ELSE s
OutName(r, s) == IF r.tr = "camel" THEN CamelOf(s) ELSE IF r.tr = "typed" THEN TypedOut(s) ELSE s
MapSeq(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
B(x) == x = "T"
NoRef(P) == Get(P, "noref", "") \in {"1", "TRUE", "true", "True"}
WireProps(r, ps) == {<<InName(r, ps[i][1]), ps[i][2]>> : i \in DOMAIN ps}

RefOf(P, j) == [p |-> j, id |-> P.res[j].engid]
ReqProviders(P, x, i) ==
  IF P.res[i].kind # "rcomp" THEN {}
  ELSE LET listed == ProvPairs(P, x.s.n.provs)
       IN (IF x.eff = 0 THEN {} ELSE {<<PkgOf(P, x.eff), x.eff>>}) \cup {e \in listed : x.eff = 0 \/ e[1] # PkgOf(P, x.eff)}

\* clauses <<property, clause, holds>> of the request `g` for resource i
Common(P, x, i, g) ==
  LET r == P.res[i] n == x.s.n
  IN {<<"C10", "type", g.type = r.type>>, <<"C10", "name", g.name = r.name>>, <<"C10", "parent", g.parent = n.par>>,
      <<IF x.s.calls = <<>> THEN "C10" ELSE "C14", "properties", Range1(g.object) = WireProps(r, x.s.props)>>,
      <<"C10", "version", g.version = n.version>>, <<"C10", "url", g.url = n.url>>,
      <<"C10", "acceptSecrets", g.acceptSecrets>>, <<"C10", "acceptResources", g.acceptResources = ~NoRef(P)>>,
      <<"C10", "additionalSecretOutputs", g.aso = MapSeq(n.aso, LAMBDA s : OutName(r, s))>>,
      <<"C10", "dependsOn", Range1(g.deps) = Range1(n.deps)>>, <<"C10", "dependsOn-once", g.ndeps = Cardinality(Range1(n.deps))>>}
RegisterClauses(P, x, i, g) ==
  LET r == P.res[i] n == x.s.n
  IN {<<"C10", "custom", g.custom = IsCustom(r)>>, <<"C10", "remote", g.remote = (r.kind = "rcomp")>>,
      <<"C10", "protect", g.protect = B(x.prot)>>,
      <<"C10", "deleteBeforeReplace", g.dbr = B(n.dbr) /\ g.dbrDefined = (n.dbr # "N")>>,
      <<"C10", "retainOnDelete", g.retain = B(n.retain)>>, <<"C10", "importId", g.importId = n.importId>>,
      <<"C10", "ignoreChanges", g.ignoreChanges = MapSeq(n.ignore, LAMBDA s : InName(r, s))>>,
      <<"C10", "replaceOnChanges", g.roc = MapSeq(n.roc, LAMBDA s : InName(r, s))>>,
      <<"C10", "timeouts", g.timeouts = n.ct>>, <<"C10", "partialValues", g.partial>>,
      <<"C11", "provider", g.provider = IF IsCustom(r) /\ x.eff # 0 THEN <<RefOf(P, x.eff)>> ELSE <<>>>>,
      <<"C11", "providers", {<<g.providers[k][1], g.providers[k][2]>> : k \in DOMAIN g.providers}
                              = {<<e[1], <<RefOf(P, e[2])>>>> : e \in ReqProviders(P, x, i)}>>,
      <<"C13", "aliases", Range1(g.aliases) = {UrnText(u) : u \in x.a}>>,
      <<"C13", "aliases-once", Len(g.aliases) = Cardinality(Range1(g.aliases))>>}
IdText(P, v) == IF v.form = "res" THEN P.res[v.r].engid ELSE v.s
ReadClauses(P, x, i, g) ==
  {<<"C10", "id", g.id = IdText(P, x.s.n.id[1])>>,
   <<"C11", "provider", g.provider = IF x.eff # 0 THEN <<RefOf(P, x.eff)>> ELSE <<>>>>}
ReqClauses(P, x, i, g) ==
  IF g.rpc = "get" THEN {<<"C10", "urn", g.urn = x.s.n.urn>>}
  ELSE Common(P, x, i, g) \cup (IF g.rpc = "read" THEN ReadClauses(P, x, i, g) ELSE RegisterClauses(P, x, i, g))
RpcOf(r) == IF r.kind = "read" THEN "read" ELSE IF r.kind = "get" THEN "get" ELSE "register"
=============================================================================
