--------------------------- MODULE Trace_Requests ---------------------------
(***************************************************************************)
(* Checks what the SDK did with programs full of options against           *)
(* Requests.tla.  An item: [p |-> program, o |-> what was observed].       *)
(***************************************************************************)
EXTENDS Requests, Json, IOUtils

Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done

Bad(p, cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> 1, prop |-> p, clause |-> cl]))
Judge(clauses) == \A cl \in clauses : IF cl[3] THEN TRUE ELSE Bad(cl[1], cl[2])

\* the projection of a merged option object against its normal form
MergeClauses(P, e, g) ==
  IF Has(g, "exc") \/ Has(g, "hang") THEN {<<"C12", "merge-usable", FALSE>>}
  ELSE LET n == Norm(e)
       IN {<<"C12", "parent", g.par = n.par>>, <<"C12", "protect", g.protect = n.protect>>, <<"C12", "deleteBeforeReplace", g.dbr = n.dbr>>,
           <<"C12", "retainOnDelete", g.retain = n.retain>>, <<"C12", "provider", g.prov = n.prov>>,
           <<"C12", "providers", {<<g.provs[i][1], g.provs[i][2]>> : i \in DOMAIN g.provs} = ProvPairs(P, n.provs)>>,
           <<"C12", "ignoreChanges", g.ignore = n.ignore>>, <<"C12", "replaceOnChanges", g.roc = n.roc>>,
           <<"C12", "additionalSecretOutputs", g.aso = n.aso>>, <<"C12", "dependsOn", g.deps = n.deps \/ g.deps = <<-3>>>>,
           <<"C12", "aliases", g.aliases = n.aliases>>, <<"C12", "transformations", g.tf = [i \in DOMAIN n.tf |-> n.tf[i].id]>>,
           <<"C12", "version", g.version = n.version>>, <<"C12", "url", g.url = n.url>>, <<"C12", "import", g.import = n.importId>>,
           <<"C12", "urn", g.urn = n.urn>>, <<"C12", "customTimeouts", g.ct = n.ct>>, <<"C12", "id", g.id = n.id>>}

CallsOf(o, i) == SelectSeq(o.calls, LAMBDA c : c.r = i)
CallClauses(P, x, i, o) ==
  LET cs == CallsOf(o, i) ex == x.s.calls
  IN {<<"C14", "each-once-in-order", [k \in DOMAIN cs |-> cs[k].t] = [k \in DOMAIN ex |-> ex[k].t]>>}
     \cup (IF Len(cs) # Len(ex) THEN {}
           ELSE {<<"C14", "sees-name-and-type", \A k \in DOMAIN cs : cs[k].name = P.res[i].name /\ cs[k].type = P.res[i].type /\ cs[k].isres>>,
                 <<"C14", "sees-properties", \A k \in DOMAIN cs : Range1(cs[k].props) = ex[k].props>>,
                 <<"C14", "sees-options", \A k \in DOMAIN cs : cs[k].protect = ex[k].protect /\ cs[k].ignore = ex[k].ignore>>})

Check(it) ==
  LET P == it.p
      o == it.o
      T == Table(P)
      SendsOf(i) == {k \in DOMAIN o.sends : o.sends[k].r = i}
      RefusedOf(i) == {k \in DOMAIN o.refused : o.refused[k].r = i}
  IN /\ Judge({<<"C12", "arguments-unchanged", o.same>>, <<"C10", "run-succeeds", o.end.out = "ok">>,
               <<"C10", "nothing-else-sent", \A k \in DOMAIN o.sends : o.sends[k].r \in 1 .. Len(P.res)>>})
     /\ \A k \in DOMAIN o.merged : Judge(MergeClauses(P, o.merged[k].e, o.merged[k].got))
     /\ \A i \in 1 .. Len(P.res) :
          LET x == T[i] IN
          /\ Judge({<<IF x.s.refused THEN "C14" ELSE IF x.bad \/ x.badprov THEN "C11" ELSE "C10", "refused", Refused(x) = (RefusedOf(i) # {})>>,
                    <<"C10", "sent-once", Cardinality(SendsOf(i)) = IF Refused(x) THEN 0 ELSE 1>>})
          /\ (IF x.badprov THEN TRUE ELSE Judge(CallClauses(P, x, i, o)))
          /\ \A k \in SendsOf(i) :
               IF o.sends[k].rpc # RpcOf(P.res[i]) THEN Judge({<<"C10", "request-kind", FALSE>>})
               ELSE Judge(ReqClauses(P, x, i, o.sends[k]))

Init == tid \in 1 .. Len(Items) /\ done = FALSE
Next == ~done /\ Check(Items[tid]) /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
