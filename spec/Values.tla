------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The meaning of the SDK's value language:                                *)
(*   Den    what an output expression resolves to: value, whether it is    *)
(*          known, whether it is secret, which resources it depends on,    *)
(*          whether it fails, and which callbacks ran with which argument  *)
(*   Ser    what an input turns into on the wire, and which resources the  *)
(*          property depends on                                            *)
(*   Deser  what a wire value turns into in the program                    *)
(*   OutProp what a property of a registered resource resolves to          *)
(*                                                                         *)
(* Values and wire values are records tagged by t; expressions by e.       *)
(* A context c has: dry, sec / ref / outv (negotiated features), res (what *)
(* the engine said about each resource), tr (key translation).             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

NullV == [t |-> "null"]
UnkV == [t |-> "unk"]
Str(s) == [t |-> "str", s |-> s]
Sec(v) == [t |-> "sec", v |-> v]

Has(r, f) == f \in DOMAIN r
Opt(r, f) == Has(r, f) /\ r[f]

-----------------------------------------------------------------------------
\* ---- values
RECURSIVE HasUnk(_)
HasUnk(v) ==
  CASE v.t = "unk" -> TRUE
    [] v.t = "list" -> \E i \in DOMAIN v.l : HasUnk(v.l[i])
    [] v.t = "dict" -> \E i \in DOMAIN v.l : HasUnk(v.l[i])
    [] v.t = "sec" -> HasUnk(v.v)
    [] OTHER -> FALSE

Q(v, k, s, d, c) == [fail |-> FALSE, v |-> v, k |-> (k /\ ~HasUnk(v)), s |-> s, d |-> d, calls |-> c]
FailQ(d, c) == [fail |-> TRUE, v |-> NullV, k |-> FALSE, s |-> FALSE, d |-> d, calls |-> c]
AddCalls(q, c) == [q EXCEPT !.calls = @ \cup c]

-----------------------------------------------------------------------------
\* ---- wire -> program values.  keep: unknowns survive (previews).
IsSec(v) == v.t = "sec"
Unwrap(v) == IF IsSec(v) THEN v.v ELSE v
\* a container of secrets is itself a secret, of plain things
PushList(vs) ==
  IF \E i \in DOMAIN vs : IsSec(vs[i])
  THEN Sec([t |-> "list", l |-> [i \in DOMAIN vs |-> Unwrap(vs[i])]])
  ELSE [t |-> "list", l |-> vs]
PushDict(d) ==
  IF \E i \in DOMAIN d.l : IsSec(d.l[i])
  THEN Sec([t |-> "dict", k |-> d.k, l |-> [i \in DOMAIN d.l |-> Unwrap(d.l[i])]])
  ELSE d

\* internal: the set of keys that engines keep to themselves (those starting with "__", but for "__provider")
RECURSIVE Deser(_, _, _)
RECURSIVE DeserBag(_, _, _)
DeserBag(w, keep, internal) ==
  LET ix == SelectSeq([i \in 1 .. Len(w.k) |-> i], LAMBDA i : w.k[i] \notin internal /\ Deser(w.l[i], keep, internal).t # "null")
  IN [t |-> "dict", k |-> [j \in DOMAIN ix |-> w.k[ix[j]]], l |-> [j \in DOMAIN ix |-> Deser(w.l[ix[j]], keep, internal)]]
Deser(w, keep, internal) ==
  CASE w.t = "unk" -> IF keep THEN UnkV ELSE NullV
    [] w.t = "list" -> PushList([i \in 1 .. Len(w.l) |-> Deser(w.l[i], keep, internal)])
    [] w.t = "dict" -> PushDict(DeserBag(w, keep, internal))
    [] w.t = "sec" -> LET v == Deser(w.v, keep, internal) IN IF IsSec(v) THEN v ELSE Sec(v)
    [] w.t = "asset" -> w
    [] w.t = "arch" -> IF w.a = "assets" THEN [w EXCEPT !.v = Deser(w.v, keep, internal)] ELSE w
    \* an output value is rebuilt as an output
    [] w.t = "outv" -> LET v == Deser(w.v, keep, internal)
                       IN [t |-> "outq", q |-> Q(IF w.known THEN v ELSE NullV, w.known, w.secret, ToSet(w.deps), {})]
    \* a reference to a resource of a package nobody registered here: its ID, if it has one, else its URN
    \* a reference to a resource of a registered package: the resource
    [] w.t = "res" /\ Opt(w, "reg") -> [t |-> "resobj", s |-> "?" \o w.urn.s]
    [] w.t = "res" -> IF w.id.t = "none" THEN w.urn
                      ELSE IF w.id = Str("") THEN (IF keep THEN UnkV ELSE NullV) ELSE Deser(w.id, keep, internal)
    [] OTHER -> w

Lookup(d, key) == CHOOSE i \in DOMAIN d.k : d.k[i] = key
HasKey(d, key) == \E i \in DOMAIN d.k : d.k[i] = key

\* property p of resource x (a record: r, ins, outs (wire bags), deps (name -> set of resources the engine reported))
DepsOf(x, p) == {x.r} \cup UNION {ToSet(x.deps[i][2]) : i \in {j \in DOMAIN x.deps : x.deps[j][1] = p}}
\* engine's names -> program's names, at every level (tr: pairs <<program's, engine's>>)
Back(tr, key) == LET i == {j \in DOMAIN tr : tr[j][2] = key} IN IF i = {} THEN key ELSE tr[CHOOSE j \in i : TRUE][1]
Tr(tr, key) == LET i == {j \in DOMAIN tr : tr[j][1] = key} IN IF i = {} THEN key ELSE tr[CHOOSE j \in i : TRUE][2]
RECURSIVE BackV(_, _)
BackV(tr, v) ==
  CASE v.t = "list" -> [v EXCEPT !.l = [i \in DOMAIN v.l |-> BackV(tr, v.l[i])]]
    [] v.t = "dict" -> [v EXCEPT !.k = [i \in DOMAIN v.k |-> Back(tr, v.k[i])], !.l = [i \in DOMAIN v.l |-> BackV(tr, v.l[i])]]
    [] v.t = "sec" -> [v EXCEPT !.v = BackV(tr, v.v)]
    [] OTHER -> v

OutProp(c, x, p) ==
  LET key == Tr(x.tr, p)
      outs == DeserBag(x.outs, c.dry, ToSet(c.internal))
      inIns == HasKey(x.ins, key) /\ ~HasKey(outs, key) /\ ~c.dry
      v == BackV(x.tr, IF HasKey(outs, key) THEN outs.l[Lookup(outs, key)]
                       ELSE IF inIns THEN Deser(x.ins.l[Lookup(x.ins, key)], c.dry, ToSet(c.internal)) ELSE NullV)
      known == IF HasKey(outs, key) THEN (~c.dry \/ Unwrap(v).t # "null") ELSE ~c.dry
  IN Q(Unwrap(v), known, IsSec(v), DepsOf(x, key), {})

UrnOut(x) == Q(Str(x.urn), TRUE, FALSE, {x.r}, {})
\* an empty ID is an unknown one
IdOut(x) == IF x.rpc = "read" THEN Q(x.id, TRUE, FALSE, {x.r}, {}) ELSE Q(x.id, x.id # Str(""), FALSE, {x.r}, {})

-----------------------------------------------------------------------------
\* ---- expressions
IsOut(e) == e.e \in {"out", "leaf", "secret", "unsecret", "from", "all", "alln", "concat", "idx", "attr", "apply", "gout"}

ResOf(c, i) == c.res[i]
\* plain (output-free) expressions
RECURSIVE Plain(_)
Plain(e) ==
  CASE e.e = "null" -> NullV
    [] e.e = "bool" -> [t |-> "bool", b |-> e.b]
    [] e.e = "num" -> [t |-> "num", n |-> e.n]
    [] e.e = "flt" -> [t |-> "flt", s |-> e.s]
    [] e.e = "str" -> Str(e.s)
    [] e.e = "rawunk" -> UnkV
    [] e.e = "list" -> [t |-> "list", l |-> [i \in DOMAIN e.l |-> Plain(e.l[i])]]
    [] e.e = "dict" -> [t |-> "dict", k |-> e.k, l |-> [i \in DOMAIN e.l |-> Plain(e.l[i])]]
    [] e.e = "res" -> [t |-> "resobj", s |-> ToString(e.r)]
    [] e.e = "obj" -> [t |-> "obj", v |-> Plain(e.v)]
    [] e.e = "asset" -> [t |-> "asset", a |-> e.a, v |-> Plain(e.v)]
    [] e.e = "arch" -> [t |-> "arch", a |-> e.a, v |-> Plain(e.v)]
    [] e.e = "aw" -> Plain(e.v)
    [] e.e = "gval" -> e.val                       \* a given value, which may hold outputs
    [] e.e = "sh" -> [t |-> "sh", i |-> e.i]   \* an object held elsewhere too (see Exports)

AndAll(qs) == \A i \in DOMAIN qs : qs[i].k
OrAll(qs) == \E i \in DOMAIN qs : qs[i].s
AllD(qs) == UNION {qs[i].d : i \in DOMAIN qs}
AllC(qs) == UNION {qs[i].calls : i \in DOMAIN qs}
AnyFail(qs) == \E i \in DOMAIN qs : qs[i].fail

\* `all`: known when everything is, secret when anything is, depends on everything
Gather(qs, mk(_)) ==
  IF AnyFail(qs) THEN FailQ(AllD(qs), AllC(qs))
  ELSE Q(mk([i \in DOMAIN qs |-> qs[i].v]), AndAll(qs), OrAll(qs), AllD(qs), AllC(qs))
MkList(vs) == [t |-> "list", l |-> vs]

\* Whether the callback of an apply runs, and what it sees: in a preview, only known values - or, for callbacks that
\* accept them, unknowns.
Runs(c, q, rwu) == ~q.fail /\ (~c.dry \/ q.k \/ rwu)
Arg(c, q, rwu) == IF c.dry /\ ~q.k /\ rwu /\ ~HasUnk(q.v) THEN UnkV ELSE q.v
\* the result of apply when the callback produced t (a quad: plain results are known, public, dependency-free)
Applied(q, t) ==
  IF t.fail THEN FailQ(q.d \cup t.d, q.calls \cup t.calls)
  ELSE Q(t.v, t.k, q.s \/ t.s, q.d \cup t.d, q.calls \cup t.calls)
NotRun(c, q) == IF q.fail THEN FailQ(q.d, q.calls) ELSE Q(NullV, FALSE, q.s, q.d, q.calls)
P(v) == Q(v, TRUE, FALSE, {}, {})

\* deep conversion: values may hold outputs (callbacks can return them inside containers)
RECURSIVE Deepen(_, _)
RECURSIVE FromVal(_, _)
Deepen(c, q) == IF Runs(c, q, TRUE) THEN Applied(q, FromVal(c, Arg(c, q, TRUE))) ELSE NotRun(c, q)
FromVal(c, v) ==
  CASE v.t = "outq" -> Deepen(c, v.q)
    [] v.t = "list" -> IF v.l = <<>> THEN P(v) ELSE Gather([i \in DOMAIN v.l |-> FromVal(c, v.l[i])], MkList)
    [] v.t = "dict" -> IF v.l = <<>> THEN P(v)
                       ELSE Gather([i \in DOMAIN v.l |-> FromVal(c, v.l[i])], LAMBDA vs : [t |-> "dict", k |-> v.k, l |-> vs])
    [] OTHER -> P(v)
\* an expression as a value: the outputs in it stay outputs
RECURSIVE Den(_, _)
RECURSIVE AsVal(_, _)
RECURSIVE CallsIn(_, _)

RECURSIVE Cat(_)
Cat(vs) == IF vs = <<>> THEN "" ELSE vs[1].s \o Cat(Tail(vs))

RECURSIVE FromInput(_, _)
FromInput(c, e) ==
  IF IsOut(e) THEN Deepen(c, Den(c, e))
  ELSE CASE e.e = "aw" -> FromInput(c, e.v)
         [] e.e = "list" -> IF e.l = <<>> THEN P(MkList(<<>>)) ELSE Gather([i \in DOMAIN e.l |-> FromInput(c, e.l[i])], MkList)
         [] e.e = "dict" ->
              IF e.l = <<>> THEN P([t |-> "dict", k |-> <<>>, l |-> <<>>])
              ELSE Gather([i \in DOMAIN e.l |-> FromInput(c, e.l[i])], LAMBDA vs : [t |-> "dict", k |-> e.k, l |-> vs])
         [] e.e = "gval" -> FromVal(c, e.val)
         [] OTHER -> P(Plain(e))

Callback(c, e, arg) ==
  CASE e.f \in {"ident", "await"} -> P(arg)
    [] e.f = "outof" -> FromVal(c, arg)
    [] e.f = "wrap" -> P(MkList(<<arg>>))
    [] e.f = "const" -> P(Plain(e.w))
    [] e.f = "nested" -> [P(AsVal(c, e.w)) EXCEPT !.calls = CallsIn(c, e.w)]
    [] e.f = "pair" -> Den(c, e.w)
    [] e.f \in {"raise", "awraise"} -> FailQ({}, {})

AsVal(c, e) ==
  IF IsOut(e) THEN [t |-> "outq", q |-> [Den(c, e) EXCEPT !.calls = {}]]
  ELSE CASE e.e = "list" -> [t |-> "list", l |-> [i \in DOMAIN e.l |-> AsVal(c, e.l[i])]]
         [] e.e = "dict" -> [t |-> "dict", k |-> e.k, l |-> [i \in DOMAIN e.l |-> AsVal(c, e.l[i])]]
         [] OTHER -> Plain(e)
CallsIn(c, e) ==
  IF IsOut(e) THEN Den(c, e).calls
  ELSE IF e.e \in {"list", "dict"} THEN UNION {CallsIn(c, e.l[i]) : i \in DOMAIN e.l} ELSE {}

\* a member of a value; members that are outputs themselves are followed
Flat(v) == IF v.t = "outq" THEN v.q ELSE P(v)
Fails == FailQ({}, {})
RECURSIVE Member(_, _, _)
Member(c, v, e) ==
  CASE v.t = "unk" -> P(UnkV)
    [] v.t = "outq" -> IF Runs(c, v.q, TRUE) THEN Applied(v.q, Member(c, Arg(c, v.q, TRUE), e)) ELSE NotRun(c, v.q)
    [] e.e = "attr" -> IF v.t = "obj" /\ e.i = "a" THEN Flat(v.v) ELSE Fails
    [] Has(e, "n") -> IF v.t = "list" /\ e.n + 1 \in DOMAIN v.l THEN Flat(v.l[e.n + 1])
                      ELSE IF v.t = "str" /\ e.n < Len(v.s) THEN P(Str(SubSeq(v.s, e.n + 1, e.n + 1))) ELSE Fails
    [] OTHER -> IF v.t = "dict" /\ HasKey(v, e.i) THEN Flat(v.l[Lookup(v, e.i)]) ELSE Fails

Den(c, e) ==
  CASE e.e = "gout" -> e.q                         \* a given output
    [] e.e = "leaf" ->
         IF Opt(e, "fail") THEN FailQ({ToString(i) : i \in ToSet(e.deps)}, {})
         ELSE Q(IF Has(e, "v") THEN Plain(e.v) ELSE NullV, e.known, e.secret, {ToString(i) : i \in ToSet(e.deps)}, {})
    [] e.e = "out" ->
         LET x == ResOf(c, e.r) IN IF e.p = "urn" THEN UrnOut(x) ELSE IF e.p = "id" THEN IdOut(x) ELSE OutProp(c, x, e.p)
    [] e.e = "from" -> FromInput(c, e.v)
    [] e.e = "secret" -> LET q == FromInput(c, e.v) IN IF q.fail THEN q ELSE [q EXCEPT !.s = TRUE]
    [] e.e = "unsecret" -> LET q == Den(c, e.v) IN IF q.fail THEN q ELSE [q EXCEPT !.s = FALSE]
    [] e.e = "all" -> Gather([i \in DOMAIN e.l |-> FromInput(c, e.l[i])], MkList)
    [] e.e = "alln" -> Gather([i \in DOMAIN e.l |-> FromInput(c, e.l[i])], LAMBDA vs : [t |-> "dict", k |-> e.k, l |-> vs])
    [] e.e = "concat" ->
         LET q == Gather([i \in DOMAIN e.l |-> Deepen(c, FromInput(c, e.l[i]))], MkList)
         IN IF Runs(c, q, FALSE)
            THEN IF \A i \in DOMAIN q.v.l : q.v.l[i].t = "str" THEN Applied(q, P(Str(Cat(q.v.l)))) ELSE FailQ(q.d, q.calls)
            ELSE NotRun(c, q)
    [] e.e \in {"idx", "attr"} ->
         LET q == Den(c, e.v) IN IF Runs(c, q, TRUE) THEN Applied(q, Member(c, Arg(c, q, TRUE), e)) ELSE NotRun(c, q)
    [] e.e = "apply" ->
         LET q == Den(c, e.v)
             rwu == Opt(e, "rwu")
         IN IF Runs(c, q, rwu)
            THEN LET a == Arg(c, q, rwu)
                 IN AddCalls(Applied(q, Callback(c, e, a)), {[f |-> e.id, arg |-> a]})
            ELSE NotRun(c, q)

-----------------------------------------------------------------------------
\* ---- serialisation: result [w |-> wire, d |-> resources, fail |-> BOOLEAN]
W(w, d) == [w |-> w, d |-> d, fail |-> FALSE]
WFail == [w |-> NullV, d |-> {}, fail |-> TRUE]

SerSeq(ws, mk(_)) ==
  IF \E i \in DOMAIN ws : ws[i].fail THEN WFail
  ELSE W(mk([i \in DOMAIN ws |-> ws[i].w]), UNION {ws[i].d : i \in DOMAIN ws})

Wrap(c, q, inner) == IF ~q.k THEN UnkV ELSE IF q.s /\ c.sec THEN Sec(inner) ELSE inner

\* a resource as a value: a reference, or (engines without references) its ID, or its URN if it is a component
SerRes(c, name) ==
  IF \A y \in ToSet(c.res) : y.r # name
  \* one that was rebuilt: its name is its URN (behind a ?)
  THEN LET urn == Str(SubSeq(name, 2, Len(name))) IN W(IF c.ref THEN [t |-> "res", urn |-> urn, id |-> [t |-> "none"]] ELSE urn, {name})
  ELSE
  LET x == CHOOSE y \in ToSet(c.res) : y.r = name
      id == Wrap(c, IdOut(x), x.id)
      urn == Str(x.urn)
      d == {name}
  IN IF c.ref THEN W([t |-> "res", urn |-> urn, id |-> IF x.custom THEN id ELSE [t |-> "none"]], d)
     ELSE W(IF x.custom THEN id ELSE urn, d)
\* what stands for a set of resources in a request: a local component for the resources under it
Local(c, n) == \E x \in ToSet(c.res) : x.r = n /\ ~x.sent
Sent(c, d) == {n \in d : ~Local(c, n)} \cup UNION {IF Has(x, "under") /\ x.r \in d /\ ~x.sent THEN ToSet(x.under) ELSE {} : x \in ToSet(c.res)}

\* a resolved value (no outputs inside)
RECURSIVE SerV(_, _)
RECURSIVE SerOut(_, _, _)
SerV(c, v) ==
  CASE v.t = "list" -> SerSeq([i \in DOMAIN v.l |-> SerV(c, v.l[i])], MkList)
    [] v.t = "dict" -> SerSeq([i \in DOMAIN v.l |-> SerV(c, v.l[i])], LAMBDA ws : [t |-> "dict", k |-> [i \in DOMAIN v.k |-> Tr(c.tr, v.k[i])], l |-> ws])
    [] v.t = "resobj" -> SerRes(c, v.s)
    [] v.t \in {"asset", "arch"} -> LET x == SerV(c, v.v) IN IF x.fail THEN WFail ELSE W([v EXCEPT !.v = x.w], x.d)
    [] v.t = "obj" -> WFail
    [] v.t = "outq" -> SerOut(c, v.q, FALSE)
    [] OTHER -> W(v, {})

\* keep: output values are kept as such (inputs of remote components), for engines that understand them
SerOut(c, q, keep) ==
  IF q.fail THEN WFail
  ELSE LET inner == IF HasUnk(q.v) THEN W(NullV, {}) ELSE SerV(c, q.v)
           d == q.d \cup inner.d
       IN IF inner.fail THEN WFail
          ELSE IF keep /\ c.outv THEN W([t |-> "outv", known |-> q.k, secret |-> q.s, deps |-> Sent(c, d), v |-> IF q.k THEN inner.w ELSE NullV], d)
          ELSE W(Wrap(c, q, inner.w), d)

RECURSIVE Ser(_, _, _)
Ser(c, e, keep) ==
  IF IsOut(e) THEN SerOut(c, Den(c, e), keep)
  ELSE CASE e.e = "list" -> SerSeq([i \in DOMAIN e.l |-> Ser(c, e.l[i], keep)], MkList)
         [] e.e = "dict" -> SerSeq([i \in DOMAIN e.l |-> Ser(c, e.l[i], keep)],
                                   LAMBDA ws : [t |-> "dict", k |-> [i \in DOMAIN e.k |-> Tr(c.tr, e.k[i])], l |-> ws])
         [] e.e = "aw" -> Ser(c, e.v, keep)
         [] e.e = "res" -> SerRes(c, ToString(e.r))
         [] e.e \in {"asset", "arch"} ->
              LET x == Ser(c, e.v, FALSE) IN IF x.fail THEN WFail ELSE W([t |-> e.e, a |-> e.a, v |-> x.w], x.d)
         [] OTHER -> SerV(c, Plain(e))

\* ---- equality of specified (a) and observed (b) values: dictionaries have no order; outputs inside values are opaque
RECURSIVE Eq(_, _)
Eq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : Eq(a.l[i], b.l[i])
       [] a.t = "dict" -> /\ ToSet(a.k) = ToSet(b.k) /\ Len(a.k) = Len(b.k)
                          /\ \A i \in DOMAIN a.k : Eq(a.l[i], b.l[Lookup(b, a.k[i])])
       [] a.t \in {"sec", "obj"} -> Eq(a.v, b.v)
       [] a.t \in {"asset", "arch"} -> a.a = b.a /\ Eq(a.v, b.v)
       [] a.t = "res" -> Eq(a.urn, b.urn) /\ Eq(a.id, b.id)
       [] a.t = "outv" -> a.known = b.known /\ a.secret = b.secret /\ a.deps = ToSet(b.deps) /\ Eq(a.v, b.v)
       [] a.t = "outq" -> TRUE
       [] OTHER -> a = b

\* ---- the guarantees, stated on the meanings above (checked over every expression in MC_Values)

\* secret leaves carry text starting with S: it is never visible outside a secret
SecretText == {"S1", "S2", "S3"}
RECURSIVE Leaks(_)
Leaks(w) ==
  CASE w.t = "str" -> w.s \in SecretText
    [] w.t \in {"list", "dict"} -> \E i \in DOMAIN w.l : Leaks(w.l[i])
    [] w.t \in {"asset", "arch"} -> Leaks(w.v)
    [] w.t = "outv" -> ~w.secret /\ Leaks(w.v)
    [] OTHER -> FALSE

\* what an expression mentions
RECURSIVE Mentions(_, _)
Mentions(e, kinds) ==
  \/ e.e \in kinds
  \/ (Has(e, "v") /\ Mentions(e.v, kinds)) \/ (Has(e, "w") /\ Mentions(e.w, kinds))
  \/ (Has(e, "l") /\ \E i \in DOMAIN e.l : Mentions(e.l[i], kinds))
=============================================================================
