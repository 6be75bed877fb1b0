------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace specification: the recorded calls of each scenario are replayed   *)
(* one per transition.  Modelling calls must be enabled in Model (Legal),  *)
(* and change the model as Effect says; the recorded outcome of every call *)
(* and every observation is judged in the state it was made in.            *)
(*                                                                         *)
(* A scenario file is a sequence of [id, props, events].  Each scenario is *)
(* one behaviour: Init chooses it, then the behaviour is deterministic, so *)
(* the workers of TLC explore scenarios in parallel.                       *)
(***************************************************************************)
EXTENDS Compare, Meshes, OneWay, Plates, IOUtils

TraceFile == IOEnv.TRACE_FILE
Scenarios == RLoad(TraceFile)

VARIABLES sc,     \* scenario
          ix,     \* next event
          ms,     \* models of the scenario, by number
          bad     \* failing clauses of the latest event
vars == <<sc, ix, ms, bad>>

Has(r, f) == f \in DOMAIN r
Ev(s) == Scenarios[s].events
Props(s) == Rng(Scenarios[s].props)
Judged(s, p) == p \in Props(s)

----------------------------------------------------------------------------
(* Model changes *)

Reading == {"cmp", "observe", "project", "orphans", "cases", "touch", "mesh_obs"}
Mutating(e) == e.op \notin Reading
\* Calls whose outcome depends on choices the specification leaves open: judged by relation, then adopted
Open == {"rename", "merge_duplicate_nodes", "add_mesh", "add_opening", "generate", "sync", "rebuild"}
\* The mesh registry after a mesh call, and after the generations that came with a call
MeshName(e) == IF NoName(e.name) THEN e.ret ELSE e.name
WithMesh(m, e) ==
  CASE e.op = "add_mesh" -> [m EXCEPT !.meshes = Put(@, MeshName(e), MeshRec(e))]
    [] e.op = "add_opening" -> [m EXCEPT !.meshes[e.mesh].op = Append(@, [x |-> e.x, y |-> e.y, w |-> e.w, h |-> e.h]), !.meshes[e.mesh].gen = FALSE]
    [] OTHER -> m
Generations(e) == IF Has(e, "meshes") /\ e.op \in {"add_mesh", "generate", "analyze"} THEN e.meshes ELSE <<>>
Generated(m, e) == AfterGeneration(m, Generations(e))
\* After renaming and merging, the current names of what a mesh consists of
Renamed(m, e) == IF e.op \notin {"rename", "merge_duplicate_nodes"} \/ ~Has(e, "meshes") THEN m
                 ELSE [m EXCEPT !.meshes = [k \in DOMAIN @ |-> IF k \notin DOMAIN e.meshes THEN @[k] ELSE
                         [@[k] EXCEPT !.nodes = {e.meshes[k].nodes[n].name : n \in DOMAIN e.meshes[k].nodes},
                                      !.elems = {<<RegOf(e.meshes[k].elements[q]), e.meshes[k].elements[q].name>> : q \in DOMAIN e.meshes[k].elements}]]]
Meshed(m, e) == IF Generations(e) = <<>> THEN m ELSE Generated(Adopt(m, e.proj), e)
NewModel(m, e) ==
  IF ~Mutating(e) THEN m
  ELSE IF e.op = "add_mesh" /\ ~e.ok THEN m
  ELSE IF e.op \in Open THEN (IF Has(e, "proj") THEN Renamed(Generated(WithMesh(Adopt(m, e.proj), e), e), e) ELSE m)
  ELSE IF ~e.ok THEN (IF e.op = "analyze" THEN SetSolved(WithDefault(Meshed(m, e)), FALSE) ELSE m)
  ELSE IF e.op = "analyze" THEN Apply(Meshed(m, e), e, None)
  ELSE Apply(m, e, IF Has(e, "name") /\ ~NoName(e.name) THEN e.name ELSE IF Has(e, "name") THEN e.ret ELSE None)

\* Meshes generated by a call: their place in the model and their geometry
JudgeMeshes(m, e) ==
  LET g == Generations(e)
  IN  IF g = <<>> THEN SameContent(m, e.proj)
      ELSE JudgeGeneration(m, e.proj, g) \cup UNION {IF Sound(g[k]) THEN JudgeMesh(m.meshes[k], g[k]) ELSE {<<"mesh elements refer to nodes outside the mesh", k>>} : k \in DOMAIN g}
Ungenerated(m) == {k \in DOMAIN m.meshes : ~m.meshes[k].gen}

\* The recorded content after event i against the content the specification expects
JudgeProj(s, m, n, e) ==
  CASE e.op = "rename" -> JudgeRename(m, e.proj) \cup (IF Has(e, "meshes") THEN JudgeMeshRefs(e.proj, e.meshes) ELSE {})
    [] e.op = "merge_duplicate_nodes" -> (IF Has(e, "meshes") THEN JudgeMeshRefs(e.proj, e.meshes) ELSE {}) \cup (IF e.ok THEN JudgeMerge(m, e.proj, e.list, IF Has(e, "tol") /\ ~IsNull(e.tol) THEN e.tol ELSE "1/1000")
                                                       \cup Fail(~e.proj.solved, "still marked as solved", e.op) ELSE {})
    [] e.op = "sync" -> {}
    [] e.op = "add_opening" -> SameContent(m, e.proj)
    [] e.op \in {"add_mesh", "generate"} -> IF e.ok THEN JudgeMeshes(WithMesh(m, e), e) ELSE SameContent(m, e.proj)
    [] e.op = "analyze" /\ Generations(e) # <<>> -> {}
    [] e.op = "rebuild" -> SameContent(ms[e.from], e.proj)
    [] OTHER -> SameContent(n, e.proj) \cup Fail(n.solved \/ ~e.proj.solved, "still marked as solved", e.op)
                \cup Fail(e.ok \/ ~Mutating(e) \/ e.op = "analyze" \/ ~m.solved \/ e.proj.solved, "rejected call clears the solution", e.op)

JudgeCall(m, e) ==
  IF ~Mutating(e) \/ e.op \in {"analyze", "sync", "rebuild"} THEN {}
  ELSE IF e.op = "add_mesh" /\ ~Legal(m, e) THEN Fail(~e.ok, "call accepted", <<e.op>>)
  ELSE IF e.op \in Open THEN Fail(e.ok, "call rejected", <<e.op, e.exc>>)
                             \cup (IF e.op = "add_mesh" THEN Fail(MeshName(e) \notin DOMAIN m.meshes \cup {None, ""} /\ e.ret = MeshName(e), "name", <<e.op, e.name, e.ret>>) ELSE {})
                             \cup Fail(e.op # "generate" \/ (Has(e, "meshes") /\ e.mesh \in DOMAIN e.meshes), "mesh not generated", e.op)
  ELSE IF ~e.ok THEN Fail(~Legal(m, e), "call rejected", <<e.op, e.exc>>)
  ELSE IF ~Legal(m, e) THEN {<<"call accepted", <<e.op>>>>}
  ELSE IF e.op \in Adders THEN Fail(FreshOK(m, e, e.ret), "name", <<e.op, e.name, e.ret>>) ELSE {}

----------------------------------------------------------------------------
(* Analyses and observations *)

FrameOnly(m) == DOMAIN m.plates = {} /\ DOMAIN m.quads = {}

\* how: the kind of analysis the results come from
JudgeCombo(s, m, cx, name, o, how) ==
  LET c == m.combos[name]
      fin == FiniteObs(m, o)
      act == IF how = "linear" \/ ~HasOneWay(m) THEN AllActive(m) ELSE ActOf(m, cx, c, o)
      all == FrameOnly(m) \/ ElementsKnown(m, o)
      R == LET R0 == Residual(m, cx, c, o.D, act, <<>>) IN IF all THEN WithElements(m, cx, o, R0, c) ELSE R0
      P(p) == Judged(s, p)
  IN  IF fin # {} THEN fin
      ELSE IF (P("P08") \/ P("P09")) /\ how = "linear" THEN JudgeDisplacements(m, cx, o, R)       \* everything active
      ELSE IF P("P08") \/ P("P09") THEN JudgeNonlinear(m, cx, c, o, how = "pdelta")
      ELSE Fail(all \/ ~(P("P02") \/ P("P17")), "finite corner forces", DOMAIN o.pl)
           \cup (IF all /\ (P("P02") \/ P("P17")) THEN JudgeDisplacements(m, cx, o, R) ELSE {})
           \cup (IF P("P01") THEN JudgeBalance(m, c, o, R.m) ELSE {})
           \cup (IF P("P01") \/ P("P17") THEN JudgeReactions(m, cx, o, R, all) ELSE {})
           \cup (IF P("P17") \/ P("P20") THEN JudgeElements(m, c, o, Props(s)) ELSE {})
           \cup (IF P("P05") \/ P("P06") \/ P("P07") THEN JudgeMembers(m, cx, c, o, Props(s)) ELSE {})

JudgeObs(s, m, e) ==
  LET cx == Ctx(m)
      fld(o) == IF Has(e, "field") /\ FiniteObs(m, o) = {} THEN JudgeField(m, e.field, o, e.field.rel) ELSE {}
  IN  UNION {JudgeCombo(s, m, cx, c, e.obs[c], e.how) \cup fld(e.obs[c]) : c \in DOMAIN e.obs}

\* The iteration limit of an analysis
MaxIter(e) == IF Has(e, "kw") /\ Has(e.kw, "max_iter") THEN e.kw.max_iter ELSE 30

\* Must, may an analysis of the selected combinations be rejected?
MayRejectAny(m, sel, e) ==
  LET cx == Ctx(m)
  IN  IF (e.how = "general" /\ ~HasOneWay(m)) \/ e.how = "linear" THEN ~Stable(m, cx, AllActive(m))
      ELSE \E c \in sel : MayReject(m, cx, m.combos[c], e.how = "pdelta", MaxIter(e))
MustReject(m, sel, e) ==
  LET cx == Ctx(m)
  IN  \/ NodalInstability(m, cx, AllActive(m))
      \/ (Has(e, "exact") /\ ~Stable(m, cx, AllActive(m)))
      \/ /\ e.how # "linear" /\ HasOneWay(m)
         /\ \E c \in sel : LET w == TheWalk(m, cx, m.combos[c], e.how = "pdelta") IN w.end = "unstable" /\ ~w.edge /\ NodalInstability(m, cx, w.act)

JudgeAnalyze(s, m0, e) ==
  LET m == WithDefault(Meshed(m0, e))
      sel == Selected(m, e.tags)
      mesh == Fail(Ungenerated(m0) = DOMAIN Generations(e), "meshes generated by an analysis", <<Ungenerated(m0), DOMAIN Generations(e)>>)
              \cup (IF Generations(e) = <<>> THEN {} ELSE JudgeMeshes(WithDefault(m0), e))
  IN  IF mesh # {} THEN mesh
      ELSE IF ~e.ok /\ Has(e, "mayfail") THEN {}
      ELSE IF ~e.ok THEN Fail(~FrameOnly(m) \/ MayRejectAny(m, sel, e), "analysis rejected", e.exc)
                         \cup Fail(~e.solved, "rejected analysis leaves the model marked as solved", e.how)
      ELSE IF Judged(s, "P14") /\ FrameOnly(m) /\ MustReject(m, sel, e) THEN {<<"unstable structure accepted", <<e.how>>>>}
      ELSE Fail(e.solved, "not marked as solved", e.how)
           \cup Fail(Rng(e.have) = sel, "combinations with results", <<e.have, sel>>)
           \cup JudgeObs(s, m, e)

\* After all loads are deleted nothing may report a result other than zero
NoResult(v) == ~RIsNum(v) \/ REq(v, 0)
JudgeEmpty(o) ==
  Fail(\A n \in DOMAIN o.D : \A d \in 1..6 : NoResult(o.D[n][d]) /\ NoResult(o.R[n][d]), "nodal results left", o.D)
  \cup UNION {LET om == o.mem[k]
               IN  Fail(/\ \A i \in DOMAIN om.q : NoResult(om.q[i].v)
                        /\ \A i \in DOMAIN om.ext : NoResult(om.ext[i].mx) /\ NoResult(om.ext[i].mn)
                        /\ \A i \in DOMAIN om.arr : \A j \in DOMAIN om.arr[i].v : NoResult(om.arr[i].v[j])
                        /\ \A i \in DOMAIN om.f : NoResult(om.f[i]), "member results left", k) : k \in DOMAIN o.mem}

JudgeCmp(s, m, e) ==
  LET have(t) == Has(Ev(s)[t.ev], "obs") /\ t.combo \in DOMAIN Ev(s)[t.ev].obs
      get(t, f) == IF Has(t, f) THEN t[f] ELSE None
      ts == Eager([k \in DOMAIN e.terms |-> LET t == e.terms[k]
                                            IN  [o |-> Ev(s)[t.ev].obs[t.combo], w |-> t.w, nm |-> get(t, "nm"), mm |-> get(t, "mm"), rot |-> get(t, "rot"), sg |-> get(t, "sg")]])
  IN  Fail(~Has(e, "sameok") \/ \A k \in DOMAIN e.terms : Ev(s)[e.terms[k].ev].ok = Ev(s)[e.terms[1].ev].ok, "one succeeds, the other fails", [k \in DOMAIN e.terms |-> Ev(s)[e.terms[k].ev].exc])
      \cup IF \A k \in DOMAIN e.terms : have(e.terms[k]) THEN Compare(m, Ctx(m), ts, e.rel, Rng(e.parts)) ELSE {}

Verdict(s, i) ==
  LET e == Ev(s)[i]
      m == ms[e.mod]
  IN  IF Has(e, "broken") THEN {<<"observation impossible", e.exc>>}
      ELSE CASE e.op = "analyze" -> JudgeAnalyze(s, m, e)
             [] e.op = "observe" -> IF ~e.ok THEN {<<"query failed", e.exc>>}
                                    ELSE IF Has(e, "expect") THEN UNION {JudgeEmpty(e.obs[c]) : c \in DOMAIN e.obs}
                                    ELSE JudgeObs(s, m, e)
             [] e.op = "touch" -> Fail(e.ok \/ Has(e, "maytouch"), "query failed", e.exc)
             [] e.op = "cmp" -> JudgeCmp(s, m, e)
             [] e.op = "orphans" -> Fail(e.ok /\ Rng(e.list) = Orphans(m) /\ Len(e.list) = Cardinality(Rng(e.list)), "orphaned nodes", <<e.list, Orphans(m)>>)
             [] e.op = "cases" -> Fail(e.ok /\ Rng(e.list) = CasesUsed(m) /\ Len(e.list) = Cardinality(Rng(e.list)), "load cases", <<e.list, CasesUsed(m)>>)
             [] OTHER -> JudgeCall(m, e) \cup (IF e.op = "delete_loads" /\ Has(e, "have") THEN Fail(e.have = <<>>, "results left", e.have) ELSE {})

----------------------------------------------------------------------------
Init == /\ sc \in 1..Len(Scenarios)
        /\ ix = 1
        /\ ms = [k \in 1..4 |-> EmptyModel]
        /\ bad = {}

\* A failing call leaves the rest of the scenario without meaning
Abort(e, b) == b # {} /\ (Mutating(e) \/ e.op = "analyze")

Next == /\ ix <= Len(Ev(sc))
        /\ LET e == Ev(sc)[ix]
               b0 == Eager(Verdict(sc, ix))
               n == Eager(IF b0 # {} /\ e.op # "analyze" THEN ms[e.mod] ELSE NewModel(ms[e.mod], e))
               b == IF Has(e, "proj") /\ ~Has(e, "broken") /\ b0 = {} THEN Eager(JudgeProj(sc, ms[e.mod], n, e)) ELSE b0
           IN  /\ bad' = b
               /\ ms' = [ms EXCEPT ![e.mod] = n]
               /\ ix' = IF Abort(e, b) THEN Len(Ev(sc)) + 2 ELSE ix + 1
               /\ IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToString(<<sc, ix, b>>))
               /\ IF ix < Len(Ev(sc)) THEN TRUE ELSE PrintT("END " \o ToString(sc))
        /\ sc' = sc
Spec == Init /\ [][Next]_vars

Conforms == bad = {}
=============================================================================
