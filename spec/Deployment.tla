----------------------------- MODULE Deployment -----------------------------
(***************************************************************************)
(* The life of the resources of one Pulumi program: construction by the    *)
(* program, the wait for everything a resource depends on, the expansion   *)
(* of component dependencies, the dependency-cycle breaker, the register   *)
(* RPC, its answer (or failure) and the end of the program.                *)
(*                                                                         *)
(* One action per await point of the implementation                        *)
(* (runtime/resource.py: prepare_resource / _expand_dependencies /         *)
(* register_resource; runtime/resource_cycle_breaker.py;                   *)
(* runtime/rpc_manager.py + runtime/stack.py: run_pulumi_func).            *)
(*                                                                         *)
(* Resource 0 is the root stack.  A program is a sequence of records:      *)
(*   kind  : "cust" | "comp" (local component) | "rcomp" (remote           *)
(*           component) | "prov" (provider resource) | "read" | "get"      *)
(*   par   : index of the parent (0 = the stack)                           *)
(*   deps  : set of indices named by depends_on                            *)
(*   ins   : set of indices whose output values appear in its inputs       *)
(*   pkg   : the package of its type                                       *)
(*   prov  : index of the `provider` it names, or 0                        *)
(*   provs : set of <<package, provider index>> from its `providers`       *)
(*   aw    : resources it awaits through other values (id, Output-typed    *)
(*           depends_on)                                                   *)
(*   late  : constructed by a callback, once the resources in aw are there *)
(*   soft  : resources nested in a value that is unknown in this preview   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, DeploymentStatic, DeploymentCoarse

VARIABLES
  prog,      \* the program
  pc,        \* pc[r]: where the task of r is
  todo,      \* todo[r]: dependencies not looked at yet in the current expansion
  cur,       \* cur[r]: the dependency whose URN r is awaiting (or None)
  edges,     \* the cycle breaker's remembered dependency edges
  sent,      \* sent[r]: the set of URNs collected for r's request
  st,        \* st[r]: "none" | "inflight" | "ok" | "fail"  (URN known iff "ok")
  outcome    \* "running" | "ok" | "error"

vars == <<prog, pc, todo, cur, edges, sent, st, outcome>>

None == 999

-----------------------------------------------------------------------------
Init0(programs) ==
  /\ prog \in programs
  /\ pc = [r \in R0(prog) |-> "start"]
  /\ todo = [r \in R0(prog) |-> {}]
  /\ cur = [r \in R0(prog) |-> None]
  /\ edges = {}
  /\ sent = [r \in R0(prog) |-> {}]
  /\ st = [r \in R0(prog) |-> "none"]
  /\ outcome = "running"

Goto(r, l) == pc' = [pc EXCEPT ![r] = l]

\* The task of r starts: depends_on is resolved to a list of resources, expanded.
Start(r) ==
  /\ pc[r] = "start"
  /\ IF r = 0 THEN /\ Goto(r, "send") /\ UNCHANGED todo
     ELSE /\ Goto(r, "deps")
          /\ todo' = [todo EXCEPT ![r] = IF prog[r].kind = "get" THEN {} ELSE Expand(prog, prog[r].deps)]
  /\ UNCHANGED <<prog, cur, edges, sent, st, outcome>>

\* One step of an expansion: the next target is skipped when waiting for it would close a cycle of waits ...
Skip(r, d) ==
  /\ pc[r] \in {"deps", "pdeps"} /\ cur[r] = None /\ d \in todo[r]
  /\ Reaches(edges \cup StructEdges(prog), d, r)
  /\ todo' = [todo EXCEPT ![r] = @ \ {d}]
  /\ UNCHANGED <<prog, pc, cur, edges, sent, st, outcome>>

\* ... and otherwise remembered, and awaited.
Await(r, d) ==
  /\ pc[r] \in {"deps", "pdeps"} /\ cur[r] = None /\ d \in todo[r]
  /\ ~Reaches(edges \cup StructEdges(prog), d, r)
  /\ edges' = edges \cup {<<r, d>>}
  /\ todo' = [todo EXCEPT ![r] = @ \ {d}]
  /\ cur' = [cur EXCEPT ![r] = d]
  /\ UNCHANGED <<prog, pc, sent, st, outcome>>

Got(r) ==
  /\ cur[r] # None /\ st[cur[r]] = "ok"
  /\ sent' = [sent EXCEPT ![r] = @ \cup {cur[r]}]
  /\ cur' = [cur EXCEPT ![r] = None]
  /\ UNCHANGED <<prog, pc, todo, edges, st, outcome>>

DepsDone(r) ==
  /\ pc[r] = "deps" /\ todo[r] = {} /\ cur[r] = None
  /\ Goto(r, "ins")
  /\ UNCHANGED <<prog, todo, cur, edges, sent, st, outcome>>

\* Serialising the inputs awaits the value of every output in them.
InsDone(r) ==
  /\ pc[r] = "ins" /\ \A i \in Hidden(prog, r) : st[i] = "ok"
  /\ Goto(r, "parent")
  /\ UNCHANGED <<prog, todo, cur, edges, sent, st, outcome>>

ParentDone(r) ==
  /\ pc[r] = "parent" /\ st[prog[r].par] = "ok"
  /\ Goto(r, "prov")
  /\ UNCHANGED <<prog, todo, cur, edges, sent, st, outcome>>

ProvDone(r) ==
  /\ pc[r] = "prov" /\ \A q \in Provs(prog, r) : st[q] = "ok"
  /\ Goto(r, "pdeps")
  /\ todo' = [todo EXCEPT ![r] = Expand(prog, prog[r].ins)]
  /\ UNCHANGED <<prog, cur, edges, sent, st, outcome>>

PDepsDone(r) ==
  /\ pc[r] = "pdeps" /\ todo[r] = {} /\ cur[r] = None
  /\ Goto(r, "send")
  /\ UNCHANGED <<prog, todo, cur, edges, sent, st, outcome>>

Send(r) ==
  /\ pc[r] = "send"
  /\ st' = [st EXCEPT ![r] = "inflight"]
  /\ Goto(r, "sent")
  /\ UNCHANGED <<prog, todo, cur, edges, sent, outcome>>

Ack(r) ==
  /\ st[r] = "inflight"
  /\ st' = [st EXCEPT ![r] = "ok"]
  /\ Goto(r, "done")
  /\ UNCHANGED <<prog, todo, cur, edges, sent, outcome>>

Nack(r) ==
  /\ st[r] = "inflight"
  /\ st' = [st EXCEPT ![r] = "fail"]
  /\ Goto(r, "done")
  /\ UNCHANGED <<prog, todo, cur, edges, sent, outcome>>

\* A failed registration fails every output of the resource, and so the task of everyone who awaits one of them.
Blame(r) ==
  CASE pc[r] \in {"deps", "pdeps"} /\ cur[r] # None -> {cur[r]}
    [] pc[r] = "ins"    -> Hidden(prog, r)
    [] pc[r] = "parent" -> {prog[r].par}
    [] pc[r] = "prov"   -> Provs(prog, r)
    [] OTHER            -> {}
Propagate(r) ==
  /\ \E d \in Blame(r) : st[d] = "fail"
  /\ st' = [st EXCEPT ![r] = "fail"]
  /\ Goto(r, "done")
  /\ UNCHANGED <<prog, todo, cur, edges, sent, outcome>>

AnyFailed == \E r \in R0(prog) : st[r] = "fail"
EndOk ==
  /\ outcome = "running" /\ \A r \in R0(prog) : st[r] = "ok"
  /\ outcome' = "ok"
  /\ UNCHANGED <<prog, pc, todo, cur, edges, sent, st>>
EndError ==
  /\ outcome = "running" /\ AnyFailed
  /\ outcome' = "error"
  /\ UNCHANGED <<prog, pc, todo, cur, edges, sent, st>>

\* Once the program has ended nothing is waited for any more.
Terminated == outcome # "running" /\ UNCHANGED vars

Step(r) ==
  \/ Start(r) \/ Got(r) \/ DepsDone(r) \/ InsDone(r) \/ ParentDone(r) \/ ProvDone(r) \/ PDepsDone(r)
  \/ Propagate(r)
  \/ \E d \in todo[r] : Skip(r, d) \/ Await(r, d)
  \/ Send(r)

-----------------------------------------------------------------------------
\* ---- properties

\* C06: a request is sent only after everything it waits for has been registered.
SendSafe ==
  \A r \in R(prog) : pc[r] \in {"sent", "done"} /\ st[r] \in {"inflight", "ok"} =>
    /\ st[prog[r].par] = "ok"
    /\ \A q \in Provs(prog, r) : st[q] = "ok"
    /\ \A i \in Hidden(prog, r) : st[i] = "ok"
    /\ \A d \in sent[r] : st[d] = "ok"

\* C07: the request names every resource depended upon, except those that wait for r themselves.
DepsComplete ==
  \A r \in R(prog) : pc[r] \in {"sent", "done"} /\ st[r] \in {"inflight", "ok"} =>
    /\ sent[r] \subseteq Wanted(prog, r)
    /\ \A d \in Needed(prog, r) \ sent[r] : Reaches(edges \cup StructEdges(prog), d, r)

\* C08: the waits never form a cycle.
WaitsAcyclic == Acyclic(edges \cup StructEdges(prog))

\* Whatever the order of the silent steps, a Send obeys the observable rule the trace specification checks.
CoarseSend ==
  \A r \in R(prog) : pc[r] = "send" =>
    \A c \in SendClauses(prog, st, r, prog[r].par, ReqProvider(prog, r), ReqProviders(prog, r), sent[r]) : c[3]

NoSendAfterFailure ==
  \A r \in R(prog) : (\E d \in sent[r] : st[d] = "fail") => st[r] # "inflight"
=============================================================================
