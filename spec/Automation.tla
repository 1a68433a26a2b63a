---------------------------- MODULE Automation ----------------------------
(***************************************************************************)
(* Operations of the Automation API on a stack, as runs of the engine's    *)
(* CLI: which invocations with which flags, what is made of their output,  *)
(* of the events they log and of their failures.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range0(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* ---- texts ---- *)
Has(t, s) == \E i \in 1 .. (Len(t) - Len(s) + 1) : SubSeq(t, i, i + Len(s) - 1) = s
After(t, s) == LET i == CHOOSE i \in 1 .. (Len(t) - Len(s) + 1) : SubSeq(t, i, i + Len(s) - 1) = s /\ \A j \in 1 .. (i - 1) : SubSeq(t, j, j + Len(s) - 1) # s
               IN SubSeq(t, i + Len(s), Len(t))
Newline(t, i) == SubSeq(t, i, i) = "\n"
RECURSIVE LinesFrom(_, _, _)
(* The lines of a text; what follows the last newline is a line only if there is something. *)
LinesFrom(t, a, i) ==
  IF i > Len(t) THEN (IF a > Len(t) THEN <<>> ELSE <<SubSeq(t, a, Len(t))>>)
  ELSE IF Newline(t, i) THEN <<SubSeq(t, a, i - 1)>> \o LinesFrom(t, i + 1, i + 1)
  ELSE LinesFrom(t, a, i + 1)
Lines(t) == LinesFrom(t, 1, 1)
RECURSIVE Trim(_)
Trim(t) == IF Len(t) > 0 /\ SubSeq(t, Len(t), Len(t)) \in {" ", "\t", "\r"} THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
Heard(t) == LET ls == Lines(t) IN [i \in DOMAIN ls |-> Trim(ls[i])]
RECURSIVE JoinL(_)
JoinL(ls) == IF ls = <<>> THEN "" ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o "\n" \o JoinL(Tail(ls))

(* What a failing run of the CLI says went wrong. *)
ErrOf(stderr, heard) ==
  LET err == Lines(stderr)
      InErr(s) == \E i \in DOMAIN err : Has(err[i], s)
      Then(a, b) == \E i \in DOMAIN err : Has(err[i], a) /\ Has(After(err[i], a), b)
      Said(s) == \E i \in DOMAIN heard : Has(heard[i], s)
  IN IF Then("no stack named", "found") THEN "StackNotFoundError"
     ELSE IF Then("stack", "already exists") THEN "StackAlreadyExistsError"
     ELSE IF InErr("[409] Conflict: Another update is currently in progress.") THEN "ConcurrentUpdateError"
     ELSE IF Said("Build FAILED.") \/ Said("Unable to compile TypeScript") \/ Said(": syntax error:") \/ Said(": undefined:") THEN "CompilationError"
     ELSE IF Said("python inline source runtime error") THEN "InlineSourceRuntimeError"
     ELSE IF Said("failed with an unhandled exception") \/ Said("panic: runtime error") \/ Said("an unhandled error occurred:") THEN "RuntimeError"
     ELSE "CommandError"

(* ---- command lines ---- *)
Common == {"parallel", "message", "target", "color", "log_flow", "log_verbosity", "log_to_std_err", "tracing", "debug"}
ArgsOf(op) ==
  CASE op \in {"up", "preview"} -> Common \cup {"policy_packs", "policy_pack_configs", "expect_no_changes", "diff", "target_dependents", "replace", "plan"}
    [] op = "refresh" -> Common \cup {"expect_no_changes"}
    [] op = "destroy" -> Common \cup {"target_dependents"}
    [] OTHER -> {}
FlagOf(op, a) ==
  CASE a = "target_dependents" -> "target-dependents"
    [] a = "policy_packs" -> "policy-pack"
    [] a = "policy_pack_configs" -> "policy-pack-config"
    [] a = "expect_no_changes" -> "expect-no-changes"
    [] a = "log_flow" -> "logflow"
    [] a = "log_verbosity" -> "verbose"
    [] a = "log_to_std_err" -> "logtostderr"
    [] a = "plan" -> (IF op = "up" THEN "plan" ELSE "save-plan")
    [] OTHER -> a
Switches == {"expect_no_changes", "diff", "target_dependents", "log_flow", "log_to_std_err", "debug"}
(* An argument is given as the texts it denotes: one for a plain value, any number for a list, none for a switch. *)
FlagsOf(op, arg) ==
  IF arg.a \in Switches THEN (IF arg.on THEN <<<<FlagOf(op, arg.a), "">>>> ELSE <<>>)
  ELSE [i \in DOMAIN arg.v |-> <<FlagOf(op, arg.a), arg.v[i]>>]
Plain(f) == <<f, "">>

Lifecycle == {"up", "preview", "refresh", "destroy"}
Watched(o) == o.events \/ o.op = "preview"
Inline(o) == o.op \in {"up", "preview"} /\ o.program
Main(o, stack) ==
  LET ours == <<<<"stack", stack>>, Plain("non-interactive")>>
  IN CASE o.op \in Lifecycle ->
            [cmd |-> <<o.op>>, pos |-> <<>>,
             fl |-> (IF o.op = "preview" THEN <<>> ELSE <<Plain("yes"), Plain("skip-preview")>>)
                    \o Cat([i \in DOMAIN o.args |-> FlagsOf(o.op, o.args[i])])
                    \o (IF Inline(o) THEN <<<<"client", "ADDRESS">>>> ELSE <<>>)
                    \o <<<<"exec-kind", IF o.program THEN "auto.inline" ELSE "auto.local">>>>
                    \o (IF Watched(o) THEN <<<<"event-log", "FILE">>>> ELSE <<>>)
                    \o ours]
       [] o.op = "cancel" -> [cmd |-> <<"cancel">>, pos |-> <<>>, fl |-> <<Plain("yes")>> \o ours]
       [] o.op \in {"history", "info"} -> [cmd |-> <<"stack", "history">>, pos |-> <<>>, fl |-> <<Plain("json")>> \o (IF o.secrets THEN <<Plain("show-secrets")>> ELSE <<>>)
              \o (IF o.op = "info" THEN <<<<"page-size", "1">>, <<"page", "1">>>> ELSE IF o.size = "" THEN <<>> ELSE <<<<"page-size", o.size>>, <<"page", IF o.page = "" THEN "1" ELSE o.page>>>>) \o ours]
       [] o.op = "export" -> [cmd |-> <<"stack", "export">>, pos |-> <<>>, fl |-> <<Plain("show-secrets")>> \o ours]
       [] o.op = "import" -> [cmd |-> <<"stack", "import">>, pos |-> <<>>, fl |-> <<<<"file", "FILE">>>> \o ours]
       [] OTHER -> [cmd |-> <<"stack", "output">>, pos |-> <<>>, fl |-> <<Plain("json")>> \o ours]
Shown(stack) == [cmd |-> <<"stack", "output">>, pos |-> <<>>, fl |-> <<Plain("json"), Plain("show-secrets"), <<"stack", stack>>, Plain("non-interactive")>>]
Masked(stack) == [cmd |-> <<"stack", "output">>, pos |-> <<>>, fl |-> <<Plain("json"), <<"stack", stack>>, Plain("non-interactive")>>]
Latest(o, stack) == Main([op |-> "info", secrets |-> o.secrets], stack)
(* What is asked of the CLI once the operation itself has succeeded; in any order. *)
Later(o, stack) ==
  CASE o.op = "up" -> <<Masked(stack), Shown(stack), Latest(o, stack)>>
    [] o.op \in {"refresh", "destroy"} -> <<Latest(o, stack)>>
    [] o.op = "outputs" -> <<Shown(stack)>>
    [] OTHER -> <<>>

(* Two command lines that the CLI takes alike: the order matters only among uses of the same flag. *)
Uses(fl, f) == SelectSeq(fl, LAMBDA x : x[1] = f)
SameCall(a, b) ==
  /\ a.cmd = b.cmd /\ a.pos = b.pos
  /\ Len(a.fl) = Len(b.fl)
  /\ \A f \in {a.fl[i][1] : i \in DOMAIN a.fl} \cup {b.fl[i][1] : i \in DOMAIN b.fl} : Uses(a.fl, f) = Uses(b.fl, f)
Times(c, cs) == Cardinality({i \in DOMAIN cs : SameCall(c, cs[i])})
SameCalls(as, bs) == Len(as) = Len(bs) /\ \A i \in DOMAIN as : Times(as[i], as) = Times(as[i], bs)

(* ---- data ---- *)
Lit(s) == [t |-> "lit", s |-> s]
NullT == Lit("null")
At(d, k) == d.l[CHOOSE i \in DOMAIN d.k : d.k[i] = k]
InD(d, k) == k \in Range0(d.k)
RECURSIVE SameTree(_, _)
SameTree(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "list" -> Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : SameTree(a.l[i], b.l[i])
       [] a.t \in {"dict", "obj"} -> /\ Range0(a.k) = Range0(b.k) /\ Len(a.k) = Len(b.k)
                                     /\ (a.t = "obj" => a.c = b.c)
                                     /\ \A i \in DOMAIN a.k : SameTree(a.l[i], At(b, a.k[i]))
       [] OTHER -> a = b

(* Events: how each field of the engine's JSON is read (kind "raw": as it is; a class; an enumeration; a map of a class). *)
F(w, a, k, d) == [w |-> w, a |-> a, k |-> k, d |-> d]
EmptyStr == Lit("\"\"")
Zero == Lit("0")
No == Lit("false")
Empty == [t |-> "dict", k |-> <<>>, l |-> <<>>]
Raw(w, a, d) == F(w, a, "raw", d)
Fields(c) ==
  CASE c = "EngineEvent" -> <<Raw("sequence", "sequence", Zero), Raw("timestamp", "timestamp", Zero),
         F("cancelEvent", "cancel_event", "CancelEvent", NullT), F("stdoutEvent", "stdout_event", "StdoutEngineEvent", NullT),
         F("diagnosticEvent", "diagnostic_event", "DiagnosticEvent", NullT), F("preludeEvent", "prelude_event", "PreludeEvent", NullT),
         F("summaryEvent", "summary_event", "SummaryEvent", NullT), F("resourcePreEvent", "resource_pre_event", "ResourcePreEvent", NullT),
         F("resOutputsEvent", "res_outputs_event", "ResOutputsEvent", NullT), F("resOpFailedEvent", "res_op_failed_event", "ResOpFailedEvent", NullT),
         F("policyEvent", "policy_event", "PolicyEvent", NullT)>>
    [] c = "CancelEvent" -> <<>>
    [] c = "StdoutEngineEvent" -> <<Raw("message", "message", EmptyStr), Raw("color", "color", EmptyStr)>>
    [] c = "DiagnosticEvent" -> <<Raw("message", "message", EmptyStr), Raw("color", "color", EmptyStr), Raw("severity", "severity", EmptyStr),
         Raw("streamID", "stream_id", NullT), Raw("ephemeral", "ephemeral", NullT), Raw("urn", "urn", NullT), Raw("prefix", "prefix", NullT)>>
    [] c = "PolicyEvent" -> <<Raw("message", "message", EmptyStr), Raw("color", "color", EmptyStr), Raw("policyName", "policy_name", EmptyStr),
         Raw("policyPackName", "policy_pack_name", EmptyStr), Raw("policyPackVersion", "policy_pack_version", EmptyStr),
         Raw("policyPackVersionTag", "policy_pack_version_tag", EmptyStr), Raw("enforcementLevel", "enforcement_level", EmptyStr),
         Raw("resourceUrn", "resource_urn", NullT)>>
    [] c = "PreludeEvent" -> <<Raw("config", "config", Empty)>>
    [] c = "SummaryEvent" -> <<Raw("maybeCorrupt", "maybe_corrupt", No), Raw("durationSeconds", "duration_seconds", Zero),
         Raw("resourceChanges", "resource_changes", Empty), Raw("PolicyPacks", "policy_packs", Empty)>>
    [] c = "PropertyDiff" -> <<F("diffKind", "diff_kind", "enum DiffKind", NullT), Raw("inputDiff", "input_diff", No)>>
    [] c = "StepEventStateMetadata" -> <<Raw("type", "type", EmptyStr), Raw("urn", "urn", EmptyStr), Raw("id", "id", EmptyStr), Raw("parent", "parent", EmptyStr),
         Raw("provider", "provider", EmptyStr), Raw("custom", "custom", NullT), Raw("delete", "delete", NullT), Raw("protect", "protect", NullT),
         Raw("inputs", "inputs", NullT), Raw("outputs", "outputs", NullT), Raw("initErrors", "init_errors", NullT)>>
    [] c = "StepEventMetadata" -> <<F("op", "op", "enum OpType", NullT), Raw("urn", "urn", EmptyStr), Raw("type", "type", EmptyStr), Raw("provider", "provider", EmptyStr),
         F("old", "old", "StepEventStateMetadata", NullT), F("new", "new", "StepEventStateMetadata", NullT), Raw("keys", "keys", NullT), Raw("diffs", "diffs", NullT),
         F("detailedDiff", "detailed_diff", "map PropertyDiff", NullT), Raw("logical", "logical", NullT)>>
    [] c \in {"ResourcePreEvent", "ResOutputsEvent"} -> <<F("metadata", "metadata", "StepEventMetadata", NullT), Raw("planning", "planning", NullT)>>
    [] c = "ResOpFailedEvent" -> <<F("metadata", "metadata", "StepEventMetadata", NullT), Raw("status", "status", Zero), Raw("steps", "steps", Zero)>>
RECURSIVE ReadAs(_, _)
ReadAs(c, w) ==
  LET fs == Fields(c)
      One(f) == IF ~InD(w, f.w) THEN f.d
                ELSE LET v == At(w, f.w) IN
                     IF f.k = "raw" \/ v = NullT THEN v
                     ELSE IF f.k \in {"enum DiffKind", "enum OpType"} THEN [t |-> "enum", c |-> IF f.k = "enum OpType" THEN "OpType" ELSE "DiffKind", s |-> v.s]
                     ELSE IF f.k = "map PropertyDiff" THEN [t |-> "dict", k |-> v.k, l |-> [i \in DOMAIN v.l |-> ReadAs("PropertyDiff", v.l[i])]]
                     ELSE ReadAs(f.k, v)
  IN [t |-> "obj", c |-> c, k |-> [i \in DOMAIN fs |-> fs[i].a], l |-> [i \in DOMAIN fs |-> One(fs[i])]]

(* The latest update, read from the history. *)
Or(d, k, x) == IF InD(d, k) THEN At(d, k) ELSE x
Setting(v) == [t |-> "obj", c |-> "ConfigValue", k |-> <<"value", "secret">>,
               l |-> <<Or(v, "value", Lit("\"[secret]\"")), At(v, "secret")>>]
SummaryOf(h) ==
  [t |-> "obj", c |-> "UpdateSummary",
   k |-> <<"kind", "start_time", "message", "environment", "config", "result", "end_time", "version", "resource_changes">>,
   l |-> <<At(h, "kind"), At(h, "startTime"), At(h, "message"), At(h, "environment"),
           [t |-> "dict", k |-> At(h, "config").k, l |-> [i \in DOMAIN At(h, "config").l |-> Setting(At(h, "config").l[i])]],
           At(h, "result"), Or(h, "endTime", NullT), Or(h, "version", NullT), Or(h, "resourceChanges", NullT)>>]
OutputsOf(masked, shown) ==
  [t |-> "dict", k |-> shown.k,
   l |-> [i \in DOMAIN shown.k |-> [t |-> "obj", c |-> "OutputValue", k |-> <<"value", "secret">>,
                                    l |-> <<shown.l[i], IF At(masked, shown.k[i]) = Lit("\"[secret]\"") THEN Lit("true") ELSE Lit("false")>>]]]
=============================================================================
