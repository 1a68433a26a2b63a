----------------------------- MODULE Trace_Types ----------------------------
(***************************************************************************)
(* Checks what typed inputs were sent as and what typed outputs were.      *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils
Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l

Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> "C21", clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[2] THEN TRUE ELSE Bad(cl[1])

It == Items[tid]
Ev == It.ev[l]
C == [cls |-> It.cls, enums |-> It.enums, keys |-> Ev.keys, inkeys |-> Ev.inkeys]
SameQ(a, b) == a.known = b.known /\ a.secret = b.secret /\ (a.known => SameT(a.v, b.v))

\* the mapping that an output object which is a dictionary also is: each field under the name the class gives it there
MapOK(o, v) ==
  LET d == ClsOf(C, v.cl)
  IN \A i \in DOMAIN d.fields : v.l[i].t = "null" \/ \E j \in DOMAIN o.k : o.k[j] = d.fields[i].dk /\ SameT(o.l[j], v.l[i])

Reg ==
  LET sent == EncArgs(C, Ev.args)
      fits == ResFits(C, Ev.fields, sent, Ev.state, Ev.dry)
  IN /\ Judge({<<"sent", SameT(Ev.sent, sent)>>, <<"misfits-are-refused", Ev.fail = ~fits>>, <<"every-property-given-is-an-output", Ev.missing = <<>>>>})
     /\ IF Ev.fail \/ ~fits THEN TRUE
        ELSE \A i \in DOMAIN Ev.outs :
               LET o == Ev.outs[i]
                   want == OutOf(C, Ev.fields[o.f], sent, Ev.state, Ev.dry)
               IN /\ Judge({<<"output", SameQ(o.q, want)>>})
                  \* fields of an output object, lifted
                  /\ \A j \in DOMAIN o.lifts :
                       LET w == IF want.v.t = "obj" THEN want.v.l[o.lifts[j].f] ELSE NullV
                       IN Judge({<<"lifted-field", SameQ(o.lifts[j].q, [v |-> w, known |-> ~HasUnkT(w), secret |-> want.secret])>>})
Init == tid \in 1 .. Len(Items) /\ l = 1
Next ==
  /\ l <= Len(It.ev)
  /\ CASE Ev.ev = "reg" -> Reg
       [] Ev.ev = "invoke" ->
            LET w == DeserBag(Ev.ret, Ev.dry, {}) T == [ty |-> "obj", cl |-> Ev.cl]
                fits == \/ Ev.iscall /\ HasUnk(w)
                        \/ Fits(C, T, [w EXCEPT !.l = [i \in DOMAIN w.l |-> Unwrap(w.l[i])]])
                sec == \E i \in DOMAIN w.l : IsSec(w.l[i])
                v == Build(C, T, [w EXCEPT !.l = [i \in DOMAIN w.l |-> Unwrap(w.l[i])]])
            IN /\ Judge({<<"arguments", SameT(Ev.sent, EncArgs(C, Ev.args))>>, <<"misfits-are-refused", Ev.fail = ~fits>>})
               /\ IF Ev.fail \/ ~fits THEN TRUE
                  ELSE Judge({<<"result", IF Ev.iscall THEN SameQ(Ev.q, [v |-> v, known |-> ~HasUnk(w), secret |-> sec]) ELSE SameT(Ev.q.v, v)>>})
       [] Ev.ev = "from" ->
            LET q == From(Ev.x) IN Judge({<<"from-input-fails", ~Ev.fail>>}) /\ (IF Ev.fail THEN TRUE ELSE Judge({<<"from-input", SameQ(Ev.q, q)>>}))
       \* an output object: read as a mapping
       [] Ev.ev = "map" -> Judge({<<"mapping", MapOK(Ev.m, Ev.v)>>})
       \* an input object: what was set is what is read
       [] Ev.ev = "reads" -> Judge({<<"input-reads", \A i \in DOMAIN Ev.ok : Ev.ok[i]>>})
  /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
