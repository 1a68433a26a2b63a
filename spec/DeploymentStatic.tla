-------------------------- MODULE DeploymentStatic --------------------------
(***************************************************************************)
(* Static notions about a program: component expansion, wait graph.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
-----------------------------------------------------------------------------
\* ---- static notions, shared with the trace specification
R(p)  == 1 .. Len(p)
R0(p) == 0 .. Len(p)

Children(p, c) == {k \in R(p) : p[k].par = c}

\* What a dependency on d means on the wire: a local component stands for its children, transitively; everything
\* else is itself.  (Children are always constructed after their parent, so the recursion is well founded.)
RECURSIVE ExpandOne(_, _)
ExpandOne(p, d) ==
  IF p[d].kind = "comp" THEN UNION {ExpandOne(p, k) : k \in Children(p, d)} ELSE {d}
Expand(p, S) == UNION {ExpandOne(p, d) : d \in S}
\* The same without children constructed later, by a callback: a dependent may or may not have seen those.
RECURSIVE ExpandOneEarly(_, _)
ExpandOneEarly(p, d) ==
  IF p[d].kind = "comp" THEN UNION {ExpandOneEarly(p, k) : k \in {x \in Children(p, d) : ~p[x].late}} ELSE {d}
ExpandEarly(p, S) == UNION {ExpandOneEarly(p, d) : d \in S}

\* Static wait edges r -> x that exist from construction on: the parent (and, transitively, nothing else).
RECURSIVE ReachFrom(_, _, _)
ReachFrom(E, front, seen) ==
  IF front = {} THEN seen
  ELSE LET nxt == {e[2] : e \in {f \in E : f[1] \in front}} \ (seen \cup front)
       IN  ReachFrom(E, nxt, seen \cup front)
Reaches(E, a, b) == b \in ReachFrom(E, {a}, {})
Acyclic(E) == \A e \in E : ~Reaches(E, e[2], e[1])

\* ---- providers.  pmap(r): package -> provider handed down to r's children; a pair set <<pkg, index>>.
PkgsOf(S) == {e[1] : e \in S}
OwnProviders(p, r) ==
  LET listed == p[r].provs      \* set of <<pkg, provider>> given in `providers`
  IN listed \cup (IF p[r].prov # 0 /\ p[r].pkg \notin PkgsOf(listed) THEN {<<p[r].pkg, p[r].prov>>} ELSE {})
RECURSIVE HandedDown(_, _)
HandedDown(p, r) ==
  IF r = 0 THEN {}
  ELSE LET own == OwnProviders(p, r)
       IN own \cup {e \in HandedDown(p, p[r].par) : e[1] \notin PkgsOf(own)}
\* The provider a resource is managed by: the one it names, else the one its own `providers` lists for its package,
\* else the one handed down by its ancestors.
EffProvider(p, r) ==
  IF p[r].prov # 0 THEN p[r].prov
  ELSE LET own == {e \in p[r].provs : e[1] = p[r].pkg}
           inh == {e \in HandedDown(p, p[r].par) : e[1] = p[r].pkg}
       IN IF own # {} THEN (CHOOSE e \in own : TRUE)[2]
          ELSE IF inh # {} THEN (CHOOSE e \in inh : TRUE)[2] ELSE 0
\* what the request of r carries: one provider reference for a custom resource; for a remote component every provider
\* named in its options, and the one it inherits for its own package
ReqProvider(p, r) == IF p[r].kind \in {"cust", "read"} THEN EffProvider(p, r) ELSE 0
ReqProviders(p, r) ==
  IF p[r].kind # "rcomp" THEN {}
  ELSE LET e == EffProvider(p, r)
       IN (IF e = 0 THEN {} ELSE {<<p[r].pkg, e>>}) \cup {x \in p[r].provs : e = 0 \/ x[1] # p[r].pkg}
Provs(p, r) == ({ReqProvider(p, r)} \cup {e[2] : e \in ReqProviders(p, r)}) \ {0}

\* Wait edges known from construction on: a resource waits for its parent's URN and for its provider's URN and ID.
ParentEdges(p) == {<<r, p[r].par>> : r \in {x \in R(p) : p[x].par # 0}}
ProvEdges(p)   == UNION {{<<r, q>> : q \in Provs(p, r)} : r \in R(p)}
StructEdges(p) == ParentEdges(p) \cup ProvEdges(p)

\* What a request may contain; what it need not contain (`soft`: nested in a value that is unknown in this preview).
Wanted(p, r) == Expand(p, (IF p[r].kind = "get" THEN {} ELSE p[r].deps) \cup p[r].ins)
Needed(p, r) == ExpandEarly(p, (IF p[r].kind = "get" THEN {} ELSE p[r].deps) \cup (p[r].ins \ p[r].soft))

\* Resources whose registration r awaits through a value (inputs, the id to read, an Output given as depends_on)
\* rather than as a dependency: such a wait is invisible until the value is there.
Hidden(p, r) == p[r].ins \cup p[r].aw
HiddenHard(p, r) == (p[r].ins \ p[r].soft) \cup p[r].aw

\* Every wait that can ever arise, and the waits that go through the value of an input.
StaticWaits(p) ==
  StructEdges(p)
  \cup UNION {{<<r, d>> : d \in Wanted(p, r)} : r \in R(p)}
  \cup UNION {{<<r, i>> : i \in Hidden(p, r)} : r \in R(p)}
\* An input value that (through parents, dependencies, providers, inputs) waits for the very resource it is an input
\* of.  The cycle breaker cannot see such a wait before the value is there (see DESIGN.md, known finding KF-C08-1):
\* deadlock freedom is claimed for programs without one.
InputCycle(p) == LET G == StaticWaits(p) IN \E r \in R(p) : \E i \in Hidden(p, r) : i = r \/ Reaches(G, i, r)

=============================================================================
