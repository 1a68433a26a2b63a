------------------------------ MODULE Gen_Types -----------------------------
(***************************************************************************)
(* Every small typed value of a schema of two classes: what inputs are     *)
(* sent as, what wire values are rebuilt as; the guarantees of C21 hold of *)
(* them.                                                                   *)
(***************************************************************************)
EXTENDS Types, Json
CONSTANTS Depth
VARIABLES T, what, x

L(ty) == [ty |-> ty]
ObjT(n) == [ty |-> "obj", cl |-> n]
EnT == [ty |-> "enum", en |-> "E"]
ListT(e) == [ty |-> "list", el |-> e]
DictT(e) == [ty |-> "dict", el |-> e]
Num(s) == [t |-> "num", s |-> s]
F(py, wire, ty) == [py |-> py, wire |-> wire, ty |-> ty, dk |-> py]
C == [cls |-> <<[name |-> "I", fields |-> <<F("a_b", "aB", L("str")), F("n", "n", L("int"))>>],
                [name |-> "O", fields |-> <<F("in_", "in", ObjT("I")), F("x_s", "xS", ListT(ObjT("I"))), F("m_p", "mP", DictT(ObjT("I"))), F("e", "e", EnT)>>]>>,
      enums |-> <<[name |-> "E", vals |-> <<Str("u"), Str("v")>>]>>,
      keys |-> <<<<"aB", "a_b">>>>, inkeys |-> <<<<"a_b", "aB">>>>]

Flat1 == {L("str"), L("int"), L("float"), L("any"), EnT, ObjT("I")}
Types0 == Flat1 \cup {ObjT("O")} \cup {ListT(e) : e \in Flat1} \cup {DictT(e) : e \in Flat1}
          \cup {ListT(ListT(ObjT("I"))), DictT(ListT(ObjT("I"))), ListT(DictT(EnT))} \cup (IF Depth > 2 THEN {ListT(ObjT("O"))} ELSE {})

\* sequences of at most two
Few(S) == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}
Absent == [t |-> "absent"]
\* dictionaries with the given keys, some absent
DictOf(ks, vs) == LET ix == SelectSeq([i \in 1 .. Len(ks) |-> i], LAMBDA i : vs[i].t # "absent")
                  IN [t |-> "dict", k |-> [j \in 1 .. Len(ix) |-> ks[ix[j]]], l |-> [j \in 1 .. Len(ix) |-> vs[ix[j]]]]

RECURSIVE WV(_, _)
WV(ty, d) ==
  CASE ty.ty = "str" -> {Str("s")} \cup (IF d > 0 THEN {Str("")} ELSE {})
    [] ty.ty \in {"int", "float"} -> {Num("2")}
    [] ty.ty = "enum" -> {Str("u")} \cup (IF d > 0 THEN {Str("v")} ELSE {})
    [] ty.ty = "any" -> {Num("1")} \cup (IF d > 0 THEN {DictOf(<<"aB">>, <<Str("s")>>), [t |-> "list", l |-> <<Str("s")>>]} ELSE {})
    [] ty.ty = "list" -> {[t |-> "list", l |-> s] : s \in Few(WV(ty.el, d - 1))}
    [] ty.ty = "dict" -> {DictOf(<<"aB", "k">>, <<a, b>>) : a, b \in WV(ty.el, d - 1) \cup {Absent}}
    [] ty.cl = "I" -> {DictOf(<<"aB", "n", "extra">>, <<a, b, e>>) : a \in WV(L("str"), 0) \cup {Absent}, b \in {Num("2"), Absent},
                                                                      e \in IF d > 0 THEN {Num("7"), Absent} ELSE {Absent}}
    [] OTHER -> {DictOf(<<"in", "xS", "mP", "e">>, <<a, b, m, e>>) : a \in WV(ObjT("I"), 0) \cup {Absent},
                   b \in {Absent, [t |-> "list", l |-> <<>>]} \cup {[t |-> "list", l |-> <<y>>] : y \in WV(ObjT("I"), 0)},
                   m \in {Absent} \cup {DictOf(<<"k_k">>, <<y>>) : y \in WV(ObjT("I"), 0)}, e \in {Absent, Str("u")}}

Obj(n, l) == [t |-> "obj", cl |-> n, l |-> l]
RECURSIVE IV(_, _)
IV(ty, d) ==
  CASE ty.ty = "str" -> {Str("s")}
    [] ty.ty = "int" -> {[t |-> "int", s |-> "2"]}
    [] ty.ty = "float" -> {[t |-> "flt", s |-> "2"]}
    [] ty.ty = "enum" -> {[t |-> "enum", en |-> "E", v |-> Str("u")], Str("v")}
    [] ty.ty = "any" -> {[t |-> "int", s |-> "1"], DictOf(<<"a_b">>, <<Str("s")>>), Obj("I", <<Str("s"), NullV>>)}
    [] ty.ty = "list" -> {[t |-> "list", l |-> s] : s \in Few(IV(ty.el, d - 1))}
    [] ty.ty = "dict" -> {DictOf(<<"a_b", "k">>, <<a, b>>) : a, b \in IV(ty.el, d - 1) \cup {Absent}}
    [] ty.cl = "I" -> LET n == {[t |-> "int", s |-> "2"], NullV}
                      IN {Obj("I", <<Str("s"), b>>) : b \in n} \cup {DictOf(<<k, "n">>, <<Str("s"), b>>) : k \in {"a_b", "aB"}, b \in {[t |-> "int", s |-> "2"], Absent}}
    [] OTHER -> LET i == {Obj("I", <<Str("s"), NullV>>), DictOf(<<"a_b">>, <<Str("s")>>)}
                    xs == {[t |-> "list", l |-> <<y>>] : y \in i}
                    ms == {DictOf(<<"a_b">>, <<y>>) : y \in i}
                IN {Obj("O", <<a, b, m, e>>) : a \in i, b \in xs \cup {NullV}, m \in ms \cup {NullV}, e \in {NullV, Str("u")}}
                   \cup {DictOf(<<k[1], k[2], k[3]>>, <<a, b, m>>) : k \in {<<"in_", "x_s", "m_p">>, <<"in", "xS", "mP">>},
                                                                    a \in i, b \in xs \cup {Absent}, m \in ms \cup {Absent}}

Init == T \in Types0 /\ what = "type" /\ x = NullV
Next == /\ what = "type"
        /\ \/ what' = "wire" /\ x' \in WV(T, Depth)
           \/ what' = "in" /\ x' \in IV(T, Depth)
        /\ UNCHANGED T
Spec == Init /\ [][Next]_<<T, what, x>>

-----------------------------------------------------------------------------
\* an object written out again under its wire names
RECURSIVE Dump(_)
Dump(v) ==
  CASE v.t = "obj" -> LET d == ClsOf(C, v.cl) ix == NonNullIx(v.l)
                      IN [t |-> "dict", k |-> [j \in 1 .. Len(ix) |-> d.fields[ix[j]].wire], l |-> [j \in 1 .. Len(ix) |-> Dump(v.l[ix[j]])]]
    [] v.t = "list" -> [v EXCEPT !.l = [i \in 1 .. Len(v.l) |-> Dump(v.l[i])]]
    [] v.t = "dict" -> [v EXCEPT !.k = [i \in 1 .. Len(v.k) |-> v.k[i]], !.l = [i \in 1 .. Len(v.l) |-> Dump(v.l[i])]]
    [] v.t = "enum" -> v.v
    [] v.t \in {"int", "flt"} -> [t |-> "num", s |-> v.s]
    [] OTHER -> v
\* what a wire value has that its type declares
RECURSIVE Declared(_, _)
Declared(ty, w) ==
  CASE w.t = "list" -> [w EXCEPT !.l = [i \in 1 .. Len(w.l) |-> Declared(ElT(ty), w.l[i])]]
    [] w.t = "dict" /\ ty.ty = "obj" ->
         LET d == ClsOf(C, ty.cl)
             ix == SelectSeq([i \in 1 .. Len(w.k) |-> i], LAMBDA i : FieldByWire(d, w.k[i]) # {})
         IN [t |-> "dict", k |-> [j \in 1 .. Len(ix) |-> w.k[ix[j]]],
             l |-> [j \in 1 .. Len(ix) |-> Declared(d.fields[CHOOSE f \in FieldByWire(d, w.k[ix[j]]) : TRUE].ty, w.l[ix[j]])]]
    [] w.t = "dict" -> [w EXCEPT !.k = [i \in 1 .. Len(w.k) |-> Tr(C.keys, w.k[i])], !.l = [i \in 1 .. Len(w.l) |-> Declared(ElT(ty), w.l[i])]]
    [] OTHER -> w
\* an object written as a dictionary of Python names
RECURSIVE AsDict(_)
AsDict(v) ==
  CASE v.t = "obj" -> LET d == ClsOf(C, v.cl) ix == NonNullIx(v.l)
                      IN [t |-> "dict", k |-> [j \in 1 .. Len(ix) |-> d.fields[ix[j]].py], l |-> [j \in 1 .. Len(ix) |-> AsDict(v.l[ix[j]])]]
    [] v.t = "list" -> [v EXCEPT !.l = [i \in 1 .. Len(v.l) |-> AsDict(v.l[i])]]
    [] v.t = "dict" -> [v EXCEPT !.l = [i \in 1 .. Len(v.l) |-> AsDict(v.l[i])]]
    [] OTHER -> v
RECURSIVE HasAny(_)
HasAny(ty) == ty.ty = "any" \/ (ty.ty \in {"list", "dict"} /\ HasAny(ty.el))
\* the output object of the same data
RECURSIVE Mirror(_, _)
Mirror(ty, v) ==
  CASE v.t = "list" -> [v EXCEPT !.l = [i \in 1 .. Len(v.l) |-> Mirror(ElT(ty), v.l[i])]]
    [] v.t = "obj" -> LET d == ClsOf(C, v.cl) IN [v EXCEPT !.l = [i \in 1 .. Len(v.l) |-> Mirror(d.fields[i].ty, v.l[i])]]
    [] v.t = "dict" /\ ty.ty = "obj" ->
         LET d == ClsOf(C, ty.cl)
             at(f) == {i \in DOMAIN v.k : v.k[i] \in {f.py, f.wire}}
         IN [t |-> "obj", cl |-> ty.cl, l |-> [i \in 1 .. Len(d.fields) |-> IF at(d.fields[i]) = {} THEN NullV
                                                 ELSE Mirror(d.fields[i].ty, v.l[CHOOSE j \in at(d.fields[i]) : TRUE])]]
    [] v.t = "dict" -> [v EXCEPT !.k = [i \in 1 .. Len(v.k) |-> v.k[i]], !.l = [i \in 1 .. Len(v.l) |-> Mirror(ElT(ty), v.l[i])]]
    [] ty.ty = "enum" /\ v.t = "str" -> [t |-> "enum", en |-> ty.en, v |-> v]
    [] OTHER -> v

NoKeys == [C EXCEPT !.keys = <<>>, !.inkeys = <<>>]
Guarantees ==
  LET ok == CASE what = "wire" -> /\ Fits(C, T, x)
                                  \* nothing that is declared is lost or changed
                                  /\ SameT(Dump(Build(C, T, x)), Declared(T, x))
              [] what = "in" -> LET w == Enc(C, T, x)
                                IN \* objects and dictionaries in their place mean the same
                                   /\ (~HasAny(T) => SameT(w, Enc(C, T, AsDict(x))))
                                   \* what is sent and comes back is what it was
                                   /\ (~HasAny(T) => SameT(Build(NoKeys, T, w), Mirror(T, x)))
                                   /\ Fits(C, T, w)
              [] OTHER -> TRUE
  IN ok /\ (IF what = "type" THEN TRUE ELSE PrintT("@@" \o ToJson([ty |-> T, what |-> what, x |-> x])))
=============================================================================
