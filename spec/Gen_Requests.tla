---------------------------- MODULE Gen_Requests ----------------------------
(***************************************************************************)
(* Enumerates programs for the options of resources, checks the guarantees *)
(* of C10..C14 on the meanings of Requests.tla (invariants), and emits the *)
(* programs, to be run with the SDK.                                       *)
(*   Family "merge": one resource, option records merged in every way      *)
(*   Family "alias": trees that were renamed, retyped, moved               *)
(*   Family "tf":    trees with transformations at every level             *)
(***************************************************************************)
EXTENDS Requests, Json
CONSTANTS Family, Emit

E0 == [t |-> "dict", k |-> <<>>, l |-> <<>>]
Rr(kind, type, pkg, name, tr, o) ==
  [kind |-> kind, type |-> type, pkg |-> pkg, name |-> name, tr |-> tr, props |-> <<<<"foo_bar", "v">>, <<"plain", "w">>>>, o |-> o,
   engid |-> "id-" \o name, outs |-> E0]
Rec == [k |-> "rec"]
R1(f, v) == Rec @@ (f :> v)

-----------------------------------------------------------------------------
\* resources 1 and 2: providers of two packages, 3: of the first package again, 4, 5: something to depend on, 6: a component
Base == <<Rr("prov", "pulumi:providers:pk", "pk", "p1", "", Rec), Rr("prov", "pulumi:providers:qk", "qk", "p2", "", Rec),
          Rr("prov", "pulumi:providers:pk", "pk", "p3", "", Rec), Rr("cust", "pk:m:A", "pk", "d1", "", Rec), Rr("cust", "pk:m:A", "pk", "d2", "", Rec),
          Rr("comp", "pk:m:B", "pk", "c1", "", R1("protect", "T"))>>
Forms == {"list", "tuple", "listout", "out", "fut", "coro"}
Deps(S) == UNION {{R1("deps", [form |-> f, l |-> l]) : f \in S} : l \in {<<4>>, <<5>>, <<4, 5>>}}
OneField ==
  {R1("par", 6)} \cup {R1(f, v) : f \in {"protect", "dbr", "retain"}, v \in {"T", "F"}}
  \cup {R1(f, v) : f \in {"version", "url", "import"}, v \in {"x1", "x2"}}
  \cup {R1(f, v) : f \in {"ignore", "roc", "aso"}, v \in {<<>>, <<"foo_bar", "odd">>, <<"plain", "foo_bar">>}}
  \cup {R1("prov", 1), R1("prov", 3)}
  \cup {R1("provs", [form |-> f, l |-> l]) : f \in {"list", "dict", "tuple"}, l \in {<<>>, <<1>>, <<2, 3>>}}
  \cup Deps(Forms)
  \cup {R1("deps", [form |-> f, l |-> <<4>>]) : f \in {"single", "outsingle", "futsingle", "corosingle", "secretout"}}
  \cup {R1("ct", [form |-> f, v |-> v]) : f \in {"dict", "obj"}, v \in {<<"5m", "", "1h">>, <<"", "2m", "">>}}
  \cup {R1("aliases", <<[k |-> "alias", name |-> n, form |-> ""]>>) @@ [aform |-> f] : n \in {"n1", "n2"}, f \in {"list", "tuple"}}
  \cup {R1("tf", <<[id |-> i, do |-> "addprop", s |-> i, r |-> 0]>>) : i \in {"x", "y"}}
None == [k |-> "none"]
Mg(how, a, b) == [k |-> "merge", how |-> how, a |-> a, b |-> b]
Targets == {<<"cust", "">>, <<"cust", "camel">>, <<"cust", "typed">>, <<"comp", "">>, <<"rcomp", "">>, <<"read", "camel">>}
WithId(t, e) == IF t[1] = "read" THEN Mg("static", R1("id", [form |-> "", s |-> "rid", r |-> 0]), e) ELSE e
MergeProg(t, e) == [res |-> Append(Base, Rr(t[1], "pk:m:T", "pk", "c1-t", t[2], WithId(t, e))), stacktf |-> <<>>, dry |-> FALSE]

\* ---- trees of former and present identities
Chain == {<<0>>, <<0, 1>>, <<0, 1, 2>>, <<0, 1, 1>>}
\* what happened to a resource since: [nm |-> former name or "", ty |-> former type or "", moved |-> was at the root]
Changes == {[nm |-> n, ty |-> t, moved |-> m] : n \in {"", "was", "r1x"}, t \in {"", "pk:m:Old"}, m \in BOOLEAN}
NameOf(shape, i, derived) == IF i > 1 /\ derived THEN "app" \o (IF i = 3 THEN "-3" ELSE "-2") ELSE IF i = 1 THEN "app" ELSE "n" \o ToString(i)
AliasOf(ch) ==
  [k |-> "alias", form |-> ""] @@ (IF ch.nm # "" THEN [name |-> ch.nm] ELSE [k |-> "alias"]) @@ (IF ch.ty # "" THEN [type_ |-> ch.ty] ELSE [k |-> "alias"])
  @@ (IF ch.moved THEN [parent |-> [p |-> "root"]] ELSE [k |-> "alias"])
Changed(ch) == ch.nm # "" \/ ch.ty # "" \/ ch.moved
AliasRec(par, ch) == (IF par = 0 THEN Rec ELSE R1("par", par)) @@ (IF Changed(ch) THEN [aliases |-> <<AliasOf(ch)>>] ELSE Rec)
AliasProg(shape, derived, chs) ==
  [res |-> [i \in DOMAIN shape |-> Rr(IF i = 3 THEN "cust" ELSE "comp", "pk:m:T" \o ToString(i), "pk", NameOf(shape, i, derived), "", AliasRec(shape[i], chs[i]))],
   stacktf |-> <<>>, dry |-> FALSE]
\* the identity each resource had then; a derived name that was not changed by itself was derived from the former name of its parent
RECURSIVE FormerName(_, _, _, _)
FormerName(shape, derived, chs, i) ==
  IF chs[i].nm # "" THEN chs[i].nm
  ELSE IF i > 1 /\ StartsWith(NameOf(shape, i, derived), NameOf(shape, shape[i], derived)) /\ ~chs[i].moved
       THEN FormerName(shape, derived, chs, shape[i]) \o SubSeq(NameOf(shape, i, derived), Len(NameOf(shape, shape[i], derived)) + 1, Len(NameOf(shape, i, derived)))
       ELSE NameOf(shape, i, derived)
RECURSIVE FormerUrn(_, _, _, _)
FormerUrn(shape, derived, chs, i) ==
  LET ty == IF chs[i].ty # "" THEN chs[i].ty ELSE "pk:m:T" \o ToString(i)
      nm == FormerName(shape, derived, chs, i)
  IN IF shape[i] = 0 \/ chs[i].moved THEN Urn("stk", "prj", <<ty>>, nm) ELSE ChildUrn(FormerUrn(shape, derived, chs, shape[i]), ty, nm)

\* ---- transformations
TfLists(i) ==
  LET T(d, n) == [id |-> "t" \o ToString(i) \o ToString(n), do |-> d, s |-> ToString(i) \o ToString(n), r |-> 0]
  IN {<<>>, <<T("addprop", 1)>>, <<T("addprop", 1), T("addprop", 2)>>, <<T("none", 1), T("ignore", 2)>>, <<T("protect", 1), T("tf", 2)>>,
      <<T("dropprop", 1), T("version", 2)>>}
TfProg(shape, tl, stk, merged) ==
  [res |-> [i \in DOMAIN shape |->
              LET e == (IF shape[i] = 0 THEN Rec ELSE R1("par", shape[i])) @@ (IF tl[i] = <<>> THEN Rec ELSE [tf |-> tl[i]])
              IN Rr(IF i = 3 THEN "cust" ELSE "comp", "pk:m:T", "pk", "r" \o ToString(i), "", IF merged THEN Mg("static", e, R1("protect", "F")) ELSE e)],
   stacktf |-> stk, dry |-> FALSE]
StkTfs == {<<>>, <<[id |-> "s1", do |-> "addprop", s |-> "S", r |-> 0, at |-> 1]>>, <<[id |-> "s2", do |-> "addprop", s |-> "S", r |-> 0, at |-> 2]>>,
           <<[id |-> "s1", do |-> "protect", s |-> "S", r |-> 0, at |-> 1], [id |-> "s3", do |-> "addprop", s |-> "U", r |-> 0, at |-> 3]>>}

VARIABLES P, info, n
vars == <<P, info, n>>
Out(p) == IF Emit THEN PrintT("@@" \o ToJson(p)) ELSE TRUE

InitMerge == n = 0 /\ info \in {[t |-> t, e |-> e] : t \in Targets, e \in OneField \cup {None}} /\ P = MergeProg(info.t, info.e)
NextMerge == /\ n < 1 /\ n' = n + 1
             /\ \E f \in OneField \cup {None}, how \in {"static", "inst"} :
                  info' = [t |-> info.t, e |-> Mg(how, info.e, f)]
             /\ P' = MergeProg(info'.t, info'.e) /\ Out(P')
InitAlias == n = 0 /\ info \in {[shape |-> s, derived |-> d, chs |-> <<>>] : s \in Chain, d \in BOOLEAN} /\ P = [res |-> <<>>, stacktf |-> <<>>, dry |-> FALSE]
NextAlias == /\ n < Len(info.shape) /\ n' = n + 1
             /\ \E ch \in Changes : (n = 0 => ~ch.moved) /\ info' = [info EXCEPT !.chs = Append(info.chs, ch)]
             /\ P' = IF n' < Len(info.shape) THEN P ELSE AliasProg(info.shape, info.derived, info'.chs)
             /\ (n' < Len(info.shape) \/ Out(P'))
InitTf == n = 0 /\ info \in {[shape |-> s, tl |-> <<>>, stk |-> k, mg |-> m] : s \in Chain, k \in StkTfs, m \in BOOLEAN} /\ P = [res |-> <<>>, stacktf |-> <<>>, dry |-> FALSE]
NextTf == /\ n < Len(info.shape) /\ n' = n + 1
          /\ \E l \in TfLists(n') : info' = [info EXCEPT !.tl = Append(info.tl, l)]
          /\ P' = IF n' < Len(info.shape) THEN P ELSE TfProg(info.shape, info'.tl, info.stk, info.mg)
          /\ (n' < Len(info.shape) \/ Out(P'))
Init == CASE Family = "merge" -> InitMerge [] Family = "alias" -> InitAlias [] Family = "tf" -> InitTf
Next == CASE Family = "merge" -> NextMerge [] Family = "alias" -> NextAlias [] Family = "tf" -> NextTf
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C12: the laws of merging, over everything enumerated
Normed == {RecNorm(e) : e \in OneField}
LawsOf(a, b, c) ==
  /\ Merge(Merge(a, b), c) = Merge(a, Merge(b, c))
  /\ Merge(Empty, a) = a /\ Merge(a, Empty) = a
  /\ ProvPairs([res |-> Base], Merge(a, b).provs)
       = ProvPairs([res |-> Base], b.provs) \cup {e \in ProvPairs([res |-> Base], a.provs) : e[1] \notin PkgsOf(ProvPairs([res |-> Base], b.provs))}
Laws == Family = "merge" /\ n = 1 /\ info.t = <<"cust", "">> /\ info.e.k = "merge" => \A c \in Normed : LawsOf(Norm(info.e.a), Norm(info.e.b), c)
\* merging with nothing changes nothing of what is sent
MergeNone == Family = "merge" /\ n = 1 /\ info.e.k = "merge" /\ info.e.b = None => Norm(info.e) = Norm(info.e.a)

\* C13: every former identity is covered: the former URN of a resource is among its aliases, or nothing has changed
Covered ==
  Family = "alias" /\ n = Len(info.shape) =>
    LET T == Table(P) IN
    \A i \in DOMAIN info.shape :
      LET f == FormerUrn(info.shape, info.derived, info.chs, i)
      IN f = T[i].u \/ f \in T[i].a
\* and nothing is invented where nothing has changed
NotInvented ==
  Family = "alias" /\ n = Len(info.shape) =>
    LET T == Table(P) IN
    \A i \in DOMAIN info.shape : (\A j \in 1 .. i : ~Changed(info.chs[j])) => T[i].a = {}
Counted ==
  Family = "alias" /\ n = Len(info.shape) =>
    LET T == Table(P) IN
    \A i \in DOMAIN info.shape :
      LET N == IF Changed(info.chs[i]) THEN 1 ELSE 0
          M == IF info.shape[i] = 0 THEN 0 ELSE Cardinality(T[info.shape[i]].a)
      IN Cardinality(T[i].a) <= N + M * (1 + N) /\ (M > 0 \/ N > 0 => T[i].a # {})

\* C14: each transformation that concerns a resource is called once; others are not
OnceEach ==
  Family = "tf" /\ n = Len(info.shape) =>
    LET T == Table(P)
        Anc(i) == {i} \cup (IF info.shape[i] = 0 THEN {} ELSE {info.shape[i]} \cup (IF info.shape[info.shape[i]] = 0 THEN {} ELSE {info.shape[info.shape[i]]}))
        Ids(i) == UNION {{info.tl[j][k].id : k \in DOMAIN info.tl[j]} : j \in Anc(i)} \cup {info.stk[k].id : k \in {m \in DOMAIN info.stk : info.stk[m].at <= i}}
    IN \A i \in DOMAIN info.shape :
         LET cs == T[i].s.calls
         IN {cs[k].t : k \in DOMAIN cs} = Ids(i) /\ Len(cs) = Cardinality(Ids(i))
\* and what a transformation adds is in what is registered
Added ==
  Family = "tf" /\ n = Len(info.shape) =>
    LET T == Table(P) IN
    \A i \in DOMAIN info.shape : (\E k \in DOMAIN info.tl[i] : info.tl[i][k].do = "ignore") => T[i].s.n.ignore # <<>>
Guarantees == Laws /\ MergeNone /\ Covered /\ NotInvented /\ Counted /\ OnceEach /\ Added
=============================================================================
