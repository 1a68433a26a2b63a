------------------------- MODULE Trace_Automation -------------------------
(***************************************************************************)
(* Checks recorded operations of the Automation API against the            *)
(* specification.                                                          *)
(***************************************************************************)
EXTENDS Automation, Json, IOUtils
Items == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Bad(cl) == PrintT("@@" \o ToJson([tid |-> tid, l |-> l, prop |-> "C24", clause |-> cl]))
Judge(cl, ok) == IF ok THEN TRUE ELSE Bad(cl)

It == Items[tid]
Ev == It.ev[l]
Calls == [i \in DOMAIN Ev.runs |-> Ev.runs[i].call]
Failed == {i \in DOMAIN Ev.runs : Ev.runs[i].code # 0}

(* The environment the CLI runs in, besides that of this process. *)
EnvWant ==
  LET own == {it[1] : it \in Range0(It.env)}
  IN Range0(It.env) \cup (IF It.home = "" \/ "PULUMI_HOME" \in own THEN {} ELSE {<<"PULUMI_HOME", It.home>>})
EnvOk(run) ==
  LET got == Range0(run.env)
      dbg == {x \in got : x[1] = "PULUMI_DEBUG_COMMANDS"}
      owndbg == {x \in EnvWant : x[1] = "PULUMI_DEBUG_COMMANDS"}
  IN /\ got \ dbg = EnvWant \ owndbg
     /\ run.gone = <<>>
     /\ IF owndbg # {} THEN dbg = owndbg ELSE dbg \in {{}, {<<"PULUMI_DEBUG_COMMANDS", "true">>}}
     \* the CLI knows the flag only with this
     /\ (\E i \in DOMAIN run.call.fl : run.call.fl[i][1] = "event-log") => dbg # {}

Expected == Ev.o
Summary0 == SummaryOf(Ev.history.l[1])
HasSummary == {i \in DOMAIN Ev.sent : InD(Ev.sent[i], "summaryEvent")}
FirstSummary == At(Ev.sent[CHOOSE i \in HasSummary : \A j \in HasSummary : i <= j], "summaryEvent")
ResultOk(r) ==
  CASE Ev.o.op = "up" -> SameTree(r.summary, Summary0) /\ SameTree(r.outputs, OutputsOf(Ev.masked, Ev.shown))
    [] Ev.o.op \in {"refresh", "destroy"} -> SameTree(r.summary, Summary0)
    [] Ev.o.op = "preview" -> SameTree(r.changes, Or(FirstSummary, "resourceChanges", Empty))
    [] Ev.o.op = "outputs" -> SameTree(r.value, OutputsOf(Ev.masked, Ev.shown))
    [] Ev.o.op = "history" -> SameTree(r.value, [t |-> "list", l |-> [i \in DOMAIN Ev.history.l |-> SummaryOf(Ev.history.l[i])]])
    [] Ev.o.op = "info" -> SameTree(r.value, IF Ev.history.l = <<>> THEN NullT ELSE Summary0)
    [] Ev.o.op = "export" -> SameTree(r.value, Ev.state)
    [] Ev.o.op = "import" -> SameTree(Ev.imported, Ev.state)
    [] OTHER -> TRUE

Init == tid \in 1 .. Len(Items) /\ l = 1
Check ==
  LET main == Main(Ev.o, It.stack)
      others == SubSeq(Calls, 2, Len(Calls))
      heard == Heard(Ev.runs[1].out)
      mainok == Ev.runs[1].code = 0
      allok == Failed = {}
      lost == Ev.o.op = "preview" /\ HasSummary = {}
      none == Ev.o.op \in Lifecycle \ {"preview"} /\ Ev.history.l = <<>>
      RECURSIVE Sub(_)
      Sub(i) == IF i > Len(others) THEN TRUE ELSE Times(others[i], others) <= Times(others[i], Later(Ev.o, It.stack)) /\ Sub(i + 1)
  IN IF Calls = <<>> THEN Bad("nothing-run")
     ELSE
     /\ IF Ev.o.op = "outputs" THEN (IF allok THEN Judge("command-line", SameCalls(Calls, <<Masked(It.stack), Shown(It.stack)>>)) ELSE TRUE)
        ELSE /\ Judge("command-line", SameCall(Calls[1], main))
             /\ IF allok THEN Judge("command-lines-after", SameCalls(others, Later(Ev.o, It.stack)))
                ELSE IF ~mainok THEN Judge("goes-on-after-failure", others = <<>>)
                ELSE Judge("command-lines-after", Sub(1))
     /\ Judge("stops-at-failure", \A i \in Failed : i = Len(Ev.runs))
     /\ Judge("working-directory", \A i \in DOMAIN Ev.runs : Ev.runs[i].cwd)
     /\ Judge("environment", \A i \in DOMAIN Ev.runs : EnvOk(Ev.runs[i]))
     /\ IF allok /\ ~lost /\ ~none
        THEN IF Ev.got.t # "ok" THEN Bad("fails-without-cause")
             ELSE /\ Judge("result", ResultOk(Ev.got))
                  /\ Judge("stdout", Ev.o.op \in Lifecycle => Ev.got.stdout = JoinL(heard))
                  /\ Judge("stderr", Ev.o.op \in Lifecycle => Ev.got.stderr = Ev.runs[1].err)
        ELSE IF Ev.got.t # "error" THEN Bad("failure-unnoticed")
        ELSE IF allok THEN TRUE
        ELSE LET f == Ev.runs[CHOOSE i \in Failed : TRUE] IN
             /\ Judge("kind-of-error", Ev.got.c = ErrOf(f.err, Heard(f.out)))
             /\ Judge("error-tells", Has(Ev.got.text, f.err) /\ \A i \in DOMAIN Heard(f.out) : Has(Ev.got.text, Heard(f.out)[i]))
     /\ Judge("output-callback", IF Ev.o.listens THEN Ev.heard = heard ELSE Ev.heard = <<>>)
     /\ Judge("events", LET want == IF Ev.o.events THEN Ev.sent ELSE <<>> IN
                        Len(Ev.seen) = Len(want) /\ \A i \in DOMAIN want : SameTree(Ev.seen[i], ReadAs("EngineEvent", want[i])))
     /\ Judge("leaves-files", Ev.left = <<>>)
     /\ Judge("leaves-threads", Ev.threads = 0)
     /\ Judge("leaves-server", ~Ev.open)
Next == l <= Len(It.ev) /\ Check /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
