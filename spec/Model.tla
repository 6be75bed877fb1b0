-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* The content of a PyNite model and the effect of every modelling call on *)
(* it.  A model is a record of registries (functions from names to         *)
(* records); a call is a record with field "op" and one field per          *)
(* argument.  Legal(m, e) says whether the call must be accepted; Apply    *)
(* gives the content after an accepted call (a rejected call changes       *)
(* nothing).  Calls that create a named entity without being given a name  *)
(* are nondeterministic: any unused name may be chosen, so Apply takes the *)
(* returned name and FreshOK judges it.                                    *)
(***************************************************************************)
EXTENDS Num, Integers, FiniteSets, TLC

None == "null"
Dofs  == <<"DX", "DY", "DZ", "RX", "RY", "RZ">>
NDirs == <<"FX", "FY", "FZ", "MX", "MY", "MZ">>
LDirs == <<"Fx", "Fy", "Fz", "Mx", "My", "Mz">>
Rng(s) == {s[k] : k \in DOMAIN s}
IndexOf(s, x) == CHOOSE k \in DOMAIN s : s[k] = x

EmptyModel == [mats |-> <<>>, secs |-> <<>>, nodes |-> <<>>, aux |-> <<>>, springs |-> <<>>, members |-> <<>>,
               plates |-> <<>>, quads |-> <<>>, combos |-> <<>>, meshes |-> <<>>, solved |-> FALSE]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, S)   == [x \in DOMAIN f \ S |-> f[x]]
All(n, v)    == [k \in 1..n |-> v]
NoName(n) == n \in {None, ""}

Adders == {"add_node", "add_auxnode", "add_material", "add_section", "add_spring", "add_member", "add_plate", "add_quad"}
Registry(op) == CASE op = "add_node" -> "nodes" [] op = "add_auxnode" -> "aux" [] op = "add_material" -> "mats" [] op = "add_section" -> "secs"
                  [] op = "add_spring" -> "springs" [] op = "add_member" -> "members" [] op = "add_plate" -> "plates" [] op = "add_quad" -> "quads"
Elements == {"springs", "members", "plates", "quads"}

Dist(a, b) == LET x == b.X -- a.X  y == b.Y -- a.Y  z == b.Z -- a.Z IN RSqrt(((x ** x) ++ (y ** y)) ++ (z ** z))
MemberLength(m, mem) == Dist(m.nodes[mem.i], m.nodes[mem.j])

\* Nodes an element is attached to
Ends(reg, el) == IF reg \in {"springs", "members"} THEN {el.i, el.j} ELSE {el.i, el.j, el.m, el.n}

Legal(m, e) ==
  LET fresh(reg) == NoName(e.name) \/ e.name \notin DOMAIN m[reg]
      node(n) == n \in DOMAIN m.nodes
  IN
  CASE e.op \in {"add_node", "add_auxnode", "add_material"} -> fresh(Registry(e.op))
    [] e.op = "add_section" -> e.name \notin DOMAIN m.secs /\ e.mat \in DOMAIN m.mats
    [] e.op = "add_spring" -> fresh("springs") /\ node(e.i) /\ node(e.j)
    [] e.op = "add_member" -> fresh("members") /\ node(e.i) /\ node(e.j) /\ e.mat \in DOMAIN m.mats
                              /\ (e.aux = None \/ e.aux \in DOMAIN m.aux) /\ (e.sec = None \/ e.sec \in DOMAIN m.secs)
    [] e.op \in {"add_plate", "add_quad"} -> fresh(Registry(e.op)) /\ node(e.i) /\ node(e.j) /\ node(e.m) /\ node(e.n) /\ e.mat \in DOMAIN m.mats
    [] e.op = "def_support" -> node(e.node)
    [] e.op = "def_support_spring" -> node(e.node) /\ e.dof \in Rng(Dofs) /\ e.dir \in {"+", "-", None}
    [] e.op = "def_node_disp" -> node(e.node) /\ e.dof \in Rng(Dofs)
    [] e.op = "def_releases" -> e.member \in DOMAIN m.members
    [] e.op = "add_load_combo" -> TRUE
    [] e.op = "add_node_load" -> node(e.node) /\ e.dir \in Rng(NDirs)
    [] e.op = "add_member_pt_load" -> e.member \in DOMAIN m.members /\ e.dir \in Rng(NDirs) \cup Rng(LDirs)
    [] e.op = "add_member_dist_load" -> e.member \in DOMAIN m.members /\ e.dir \in {"FX", "FY", "FZ", "Fx", "Fy", "Fz"}
    [] e.op = "add_member_self_weight" -> e.dir \in {"FX", "FY", "FZ", "Fx", "Fy", "Fz"} \/ DOMAIN m.members = {}
    [] e.op = "add_plate_surface_pressure" -> e.elem \in DOMAIN m.plates
    [] e.op = "add_quad_surface_pressure" -> e.elem \in DOMAIN m.quads
    [] e.op = "delete_node" -> node(e.node)
    [] e.op = "delete_auxnode" -> e.aux \in DOMAIN m.aux
    [] e.op = "delete_spring" -> e.spring \in DOMAIN m.springs
    [] e.op = "delete_member" -> e.member \in DOMAIN m.members
    [] e.op \in {"delete_loads", "set", "del_combo"} -> TRUE
    [] e.op = "add_mesh" -> NoName(e.name) \/ e.name \notin DOMAIN m.meshes

\* The returned name of a creating call
FreshOK(m, e, ret) == IF NoName(e.name) THEN ret \notin DOMAIN m[Registry(e.op)] \cup {None, ""}
                      ELSE ret = e.name \/ (ret = None /\ e.op \in {"add_material", "add_section"})

NodeRec(x, y, z) == [X |-> x, Y |-> y, Z |-> z, sup |-> All(6, FALSE), spr |-> All(6, <<>>), disp |-> All(6, None), loads |-> <<>>]

SetSolved(m, b) == [m EXCEPT !.solved = b]

\* Content after an accepted call.  name: the name under which a new entity is stored
Effect(m, e, name) ==
  CASE e.op = "add_node" -> [m EXCEPT !.nodes = Put(@, name, NodeRec(e.X, e.Y, e.Z))]
    [] e.op = "add_auxnode" -> [m EXCEPT !.aux = Put(@, name, [X |-> e.X, Y |-> e.Y, Z |-> e.Z])]
    [] e.op = "add_material" -> [m EXCEPT !.mats = Put(@, name, [E |-> e.E, G |-> e.G, nu |-> e.nu, rho |-> e.rho])]
    [] e.op = "add_section" -> [m EXCEPT !.secs = Put(@, name, [A |-> e.A, Iy |-> e.Iy, Iz |-> e.Iz, J |-> e.J])]
    [] e.op = "add_spring" -> [m EXCEPT !.springs = Put(@, name, [i |-> e.i, j |-> e.j, ks |-> e.ks, to |-> e.to, co |-> e.co])]
    [] e.op = "add_member" ->
         LET s == IF e.sec = None THEN e ELSE m.secs[e.sec]
         IN  [m EXCEPT !.members = Put(@, name, [i |-> e.i, j |-> e.j, mat |-> e.mat, Iy |-> s.Iy, Iz |-> s.Iz, J |-> s.J, A |-> s.A, aux |-> e.aux,
                                                 to |-> e.to, co |-> e.co, rel |-> All(12, FALSE), pt |-> <<>>, dist |-> <<>>])]
    [] e.op \in {"add_plate", "add_quad"} ->
         LET reg == Registry(e.op)
         IN  [m EXCEPT ![reg] = Put(@, name, [i |-> e.i, j |-> e.j, m |-> e.m, n |-> e.n, t |-> e.t,
                                              E |-> m.mats[e.mat].E, nu |-> m.mats[e.mat].nu, kx |-> e.kx, ky |-> e.ky, loads |-> <<>>])]
    [] e.op = "def_support" -> [m EXCEPT !.nodes[e.node].sup = e.s]
    [] e.op = "def_support_spring" -> [m EXCEPT !.nodes[e.node].spr[IndexOf(Dofs, e.dof)] = IF IsNull(e.ks) THEN <<>> ELSE <<e.ks, e.dir>>]
    [] e.op = "def_node_disp" -> [m EXCEPT !.nodes[e.node].disp[IndexOf(Dofs, e.dof)] = e.val]
    [] e.op = "def_releases" -> [m EXCEPT !.members[e.member].rel = e.r]
    [] e.op = "add_load_combo" -> [m EXCEPT !.combos = Put(@, e.name, [factors |-> e.factors, tags |-> e.tags])]
    [] e.op = "del_combo" -> [m EXCEPT !.combos = Drop(@, {e.name})]
    [] e.op = "add_node_load" -> [m EXCEPT !.nodes[e.node].loads = Append(@, <<e.dir, e.P, e.case>>)]
    [] e.op = "add_member_pt_load" -> [m EXCEPT !.members[e.member].pt = Append(@, <<e.dir, e.P, e.x, e.case>>)]
    [] e.op = "add_member_dist_load" ->
         LET mem == m.members[e.member]
             x1 == IF IsNull(e.x1) THEN 0 ELSE e.x1
             x2 == IF IsNull(e.x2) THEN MemberLength(m, mem) ELSE e.x2
         IN  [m EXCEPT !.members[e.member].dist = Append(@, <<e.dir, e.w1, e.w2, x1, x2, e.case>>)]
    [] e.op = "add_member_self_weight" ->
         [m EXCEPT !.members = [k \in DOMAIN m.members |->
            LET mem == m.members[k]
                w == e.factor ** (m.mats[mem.mat].rho ** mem.A)
            IN  [mem EXCEPT !.dist = Append(@, <<e.dir, w, w, 0, MemberLength(m, mem), e.case>>)]]]
    [] e.op = "add_plate_surface_pressure" -> [m EXCEPT !.plates[e.elem].loads = Append(@, <<e.p, e.case>>)]
    [] e.op = "add_quad_surface_pressure" -> [m EXCEPT !.quads[e.elem].loads = Append(@, <<e.p, e.case>>)]
    [] e.op = "delete_node" ->
         LET keep(reg) == Drop(m[reg], {k \in DOMAIN m[reg] : e.node \in Ends(reg, m[reg][k])})
         IN  [m EXCEPT !.nodes = Drop(@, {e.node}), !.springs = keep("springs"), !.members = keep("members"),
                       !.plates = keep("plates"), !.quads = keep("quads")]
    [] e.op = "delete_auxnode" ->
         [m EXCEPT !.aux = Drop(@, {e.aux}),
                   !.members = [k \in DOMAIN @ |-> IF @[k].aux = e.aux THEN [@[k] EXCEPT !.aux = None] ELSE @[k]]]
    [] e.op = "delete_spring" -> [m EXCEPT !.springs = Drop(@, {e.spring})]
    [] e.op = "delete_member" -> [m EXCEPT !.members = Drop(@, {e.member})]
    [] e.op = "delete_loads" ->
         [m EXCEPT !.nodes = [k \in DOMAIN @ |-> [@[k] EXCEPT !.loads = <<>>]],
                   !.members = [k \in DOMAIN @ |-> [@[k] EXCEPT !.pt = <<>>, !.dist = <<>>]],
                   !.plates = [k \in DOMAIN @ |-> [@[k] EXCEPT !.loads = <<>>]],
                   !.quads = [k \in DOMAIN @ |-> [@[k] EXCEPT !.loads = <<>>]]]
    [] e.op = "set" -> [m EXCEPT ![e.kind][e.name][e.attr] = e.val]      \* direct assignment of a public attribute

\* Combinations an analysis works on: an analysis of a model without combinations defines the default one
DefaultCombo == [factors |-> ("Case 1" :> 1), tags |-> None]
WithDefault(m) == IF DOMAIN m.combos = {} THEN [m EXCEPT !.combos = ("Combo 1" :> DefaultCombo)] ELSE m
Tagged(c, tags) == ~IsNull(c.tags) /\ \E t \in Rng(tags) : t \in Rng(c.tags)
Selected(m, tags) == IF IsNull(tags) THEN DOMAIN m.combos ELSE {c \in DOMAIN m.combos : Tagged(m.combos[c], tags)}

Apply(m, e, name) ==
  IF e.op = "analyze" THEN SetSolved(WithDefault(m), TRUE)
  ELSE SetSolved(Effect(m, e, name), IF e.op \in {"add_section", "set", "del_combo"} THEN m.solved ELSE FALSE)

----------------------------------------------------------------------------
(* Load bookkeeping *)

CasesUsed(m) ==
  UNION ( {{m.nodes[n].loads[k][3] : k \in DOMAIN m.nodes[n].loads} : n \in DOMAIN m.nodes}
     \cup {{m.members[n].pt[k][4] : k \in DOMAIN m.members[n].pt} : n \in DOMAIN m.members}
     \cup {{m.members[n].dist[k][6] : k \in DOMAIN m.members[n].dist} : n \in DOMAIN m.members}
     \cup {{m.plates[n].loads[k][2] : k \in DOMAIN m.plates[n].loads} : n \in DOMAIN m.plates}
     \cup {{m.quads[n].loads[k][2] : k \in DOMAIN m.quads[n].loads} : n \in DOMAIN m.quads} )

Attached(m, n) == \E reg \in Elements : \E k \in DOMAIN m[reg] : n \in Ends(reg, m[reg][k])
Orphans(m) == {n \in DOMAIN m.nodes : ~Attached(m, n)}

\* The factor of a load case in a combination
Factor(c, case) == IF case \in DOMAIN c.factors THEN c.factors[case] ELSE 0

----------------------------------------------------------------------------
(* Structural invariants of every reachable model (checked in MC_Model)    *)

RefsOK(m) ==
  /\ \A reg \in Elements : \A k \in DOMAIN m[reg] : Ends(reg, m[reg][k]) \subseteq DOMAIN m.nodes
  /\ \A k \in DOMAIN m.members : m.members[k].aux \in DOMAIN m.aux \cup {None} /\ m.members[k].mat \in DOMAIN m.mats
=============================================================================
