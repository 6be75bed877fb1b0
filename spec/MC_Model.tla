------------------------------ MODULE MC_Model ------------------------------
(***************************************************************************)
(* Bounded exploration of the modelling calls: TLC visits every content    *)
(* reachable from a small base model by at most MaxLen calls of a group's  *)
(* alphabet and checks the invariants of the specification in it.  Every   *)
(* transition (also every rejected call) is printed; the harness replays   *)
(* the calls leading to it on the real code and lets Trace judge them.     *)
(***************************************************************************)
EXTENDS Model, Sequences, SequencesExt, Json, IOUtils

Group  == IOEnv.MC_GROUP
MaxLen == atoi(IOEnv.MC_LEN)

----------------------------------------------------------------------------
(* Calls *)

Node(n, x, y) == [op |-> "add_node", name |-> n, X |-> x, Y |-> y, Z |-> 0]
Aux(n, z) == [op |-> "add_auxnode", name |-> n, X |-> 1, Y |-> 2, Z |-> z]
Mat(n, e, rho) == [op |-> "add_material", name |-> n, E |-> e, G |-> 80, nu |-> "0.25", rho |-> rho]
Sec(n, a, mt) == [op |-> "add_section", name |-> n, A |-> a, Iy |-> 2, Iz |-> 3, J |-> 4, mat |-> mt]
Spring(n, i, j) == [op |-> "add_spring", name |-> n, i |-> i, j |-> j, ks |-> 50, to |-> FALSE, co |-> FALSE]
Member(n, i, j, mt, aux, sec) == IF sec = None THEN [op |-> "add_member", name |-> n, i |-> i, j |-> j, mat |-> mt, Iy |-> 5, Iz |-> 6, J |-> 7, A |-> 8, aux |-> aux, to |-> FALSE, co |-> FALSE, sec |-> None]
                                 ELSE [op |-> "add_member", name |-> n, i |-> i, j |-> j, mat |-> mt, Iy |-> None, Iz |-> None, J |-> None, A |-> None, aux |-> aux, to |-> FALSE, co |-> FALSE, sec |-> sec]
Surf(op, n, i, j, k, l) == [op |-> op, name |-> n, i |-> i, j |-> j, m |-> k, n |-> l, t |-> "0.5", mat |-> "mat", kx |-> 1, ky |-> 1]
Sup(n, b) == [op |-> "def_support", node |-> n, s |-> b]
Every == All(6, TRUE)
SSpring(n, d, k, dir) == [op |-> "def_support_spring", node |-> n, dof |-> d, ks |-> k, dir |-> dir]
Disp(n, d, v) == [op |-> "def_node_disp", node |-> n, dof |-> d, val |-> v]
Release(k, S) == [op |-> "def_releases", member |-> k, r |-> [q \in 1..12 |-> q \in S]]
Combo(n, f, tags) == [op |-> "add_load_combo", name |-> n, factors |-> f, tags |-> tags]
NLoad(n, d, P, c) == [op |-> "add_node_load", node |-> n, dir |-> d, P |-> P, case |-> c]
PLoad(k, d, P, x, c) == [op |-> "add_member_pt_load", member |-> k, dir |-> d, P |-> P, x |-> x, case |-> c]
DLoad(k, d, w1, w2, x1, x2, c) == [op |-> "add_member_dist_load", member |-> k, dir |-> d, w1 |-> w1, w2 |-> w2, x1 |-> x1, x2 |-> x2, case |-> c]
Weight(d, f, c) == [op |-> "add_member_self_weight", dir |-> d, factor |-> f, case |-> c]
Press(op, k, p, c) == [op |-> op, elem |-> k, p |-> p, case |-> c]
Del(op, f, n) == (f :> n) @@ [op |-> op]
Bare(op) == [op |-> op]
Analyze(how, tags) == [op |-> "analyze", how |-> how, sparse |-> FALSE, stab |-> TRUE, tags |-> tags, mayfail |-> TRUE]
Set(kind, n, attr, v) == [op |-> "set", kind |-> kind, name |-> n, attr |-> attr, val |-> v]

----------------------------------------------------------------------------
(* A stable frame A-B-C-D, A fixed; every node has a member *)

Frame == << Mat("mat", 200, 2), Node("A", 0, 0), Node("B", 4, 0), Node("C", 4, 3), Node("D", 0, 3),
            Member("m", "A", "B", "mat", None, None), Member("n", "B", "C", "mat", None, None), Member("o", "C", "D", "mat", None, None),
            Sup("A", Every), NLoad("D", "FY", -3, "dead"), Combo("U", "dead" :> 1, <<"a">>) >>
\* E lies on B, F on A
Twins == Frame \o << Node("E", 4, 0), Member("p", "D", "E", "mat", None, None), Node("F", 0, 0), Member("q", "F", "C", "mat", None, None) >>

Names == << Node(None, 1, 1), Node("N1", 2, 1), Node("N2", 2, 2), Node("A", 3, 3), Node("", 7, 7), Bare("rename"), Del("delete_node", "node", "nodes#1"), Del("delete_node", "node", "N1"),
            Spring(None, "A", "D"), Spring("S1", "B", "D"), Member(None, "A", "C", "mat", None, None), Member("M2", "B", "D", "mat", None, None), Del("delete_member", "member", "members#1"),
            Del("delete_spring", "spring", "springs#1"), Spring("s", "nodes#1", "A"),
            Surf("add_plate", None, "A", "B", "C", "D"), Surf("add_quad", None, "A", "B", "C", "D"), Aux(None, 5), Aux("AN1", 6) >>
Refs == << Node("E", 8, 0), Member("r", "A", "E", "mat", None, None), Member("r", "A", "C", "mat", None, None), Spring("s", "A", "C"), Spring("s", "E", "D"), Spring("s2", "A", "ghost"),
           Surf("add_plate", "pl", "A", "B", "C", "D"), Surf("add_quad", "qu", "A", "B", "C", "D"), Surf("add_quad", "pl", "D", "C", "B", "A"), Surf("add_plate", "qu", "A", "B", "C", "ghost"),
           Del("delete_node", "node", "C"), Del("delete_node", "node", "A"), Del("delete_node", "node", "E"), Del("delete_node", "node", "ghost"),
           Del("delete_member", "member", "m"), Del("delete_member", "member", "r"), Del("delete_member", "member", "ghost"), Del("delete_spring", "spring", "s"), Del("delete_spring", "spring", "ghost"),
           Aux("x", 3), Member("y", "B", "D", "mat", "x", None), Member("y", "B", "D", "mat", "ghost", None), Del("delete_auxnode", "aux", "x"), Del("delete_auxnode", "aux", "ghost"),
           Mat("mat", 300, 3), Mat("mat2", 300, 3), Member("z", "A", "D", "mat2", None, None), Sec("sec", 9, "mat"), Sec("sec", 10, "mat"), Sec("sec2", 9, "ghost"), Member("w", "A", "D", "mat", None, "sec"),
           Analyze("general", None) >>
Loads == << NLoad("B", "FX", 2, "dead"), NLoad("B", "MZ", 3, "live"), NLoad("ghost", "FX", 2, "dead"), NLoad("B", "Fx", 2, "dead"),
            PLoad("m", "Fy", 4, 1, "live"), PLoad("m", "FZ", 4, 2, "dead"), PLoad("m", "QQ", 4, 1, "live"), PLoad("ghost", "Fy", 4, 1, "live"), PLoad("n", "MY", 4, 0, "wind"),
            DLoad("n", "FY", 1, 2, None, None, "dead"), DLoad("n", "Fz", 1, 2, 1, None, "snow"), DLoad("m", "Fx", 1, -1, 1, 2, "dead"), DLoad("n", "MX", 1, 2, None, None, "dead"), DLoad("ghost", "FX", 1, 2, None, None, "dead"),
            Weight("FY", -1, "self"), Weight("FX", 2, "dead"), Weight("GY", 1, "self"),
            Surf("add_plate", "pl", "A", "B", "C", "D"), Surf("add_quad", "qu", "A", "B", "C", "D"),
            Press("add_plate_surface_pressure", "pl", 2, "wind"), Press("add_quad_surface_pressure", "qu", -2, "soil"), Press("add_plate_surface_pressure", "qu", 1, "dead"), Press("add_quad_surface_pressure", "pl", 1, "dead"),
            Bare("delete_loads"), Del("delete_member", "member", "n"), Del("delete_node", "node", "D"),
            Combo("U", "dead" :> 2, <<"a">>), Combo("V", ("dead" :> 1 @@ "live" :> 2), <<"b">>), Del("del_combo", "name", "U"), Analyze("general", None), Analyze("linear", <<"b">>),
            Mat("mat2", 300, 5), Member("z", "B", "D", "mat2", None, None), Set("mats", "mat", "rho", 7), Disp("B", "DY", 1) >>
Supports == << Sup("B", All(6, FALSE)), Sup("B", [d \in 1..6 |-> d = 2]), Sup("A", [d \in 1..6 |-> d # 6]), Sup("A", Every), Sup("ghost", Every), Sup("D", Every),
               SSpring("B", "DY", 9, None), SSpring("B", "DY", 7, "+"), SSpring("B", "RZ", 7, "-"), SSpring("B", "DQ", 7, None), SSpring("B", "DX", 7, "x"), SSpring("ghost", "DX", 7, None), SSpring("B", "DY", None, None),
               Disp("A", "DX", 1), Disp("A", "DX", 0), Disp("A", "DX", None), Disp("B", "DY", 1), Disp("B", "FX", 1), Disp("ghost", "DX", 1),
               Release("m", {}), Release("m", {5, 6}), Release("n", {11, 12}), Release("ghost", {6}), Release("n", {1}),
               Analyze("general", None), Analyze("linear", None), Analyze("pdelta", None), Bare("delete_loads"), Del("delete_node", "node", "B"), Node("B", 5, 5) >>
Merges == << [op |-> "merge_duplicate_nodes", tol |-> None], [op |-> "merge_duplicate_nodes", tol |-> "0.5"],
             Sup("E", Every), Sup("E", [d \in 1..6 |-> d = 1]), Sup("B", [d \in 1..6 |-> d = 2]), SSpring("E", "DY", 9, None), SSpring("B", "DY", 5, None), SSpring("E", "DZ", 9, "+"),
             Disp("E", "DX", 1), Disp("B", "DX", 1), NLoad("E", "FX", 2, "dead"), NLoad("B", "FX", 3, "live"), NLoad("F", "FY", 1, "dead"),
             Spring("s", "E", "C"), Spring("t", "B", "A"), Spring("u", "B", "E"), Member("r", "E", "A", "mat", None, None), Surf("add_quad", "qu", "F", "E", "C", "D"), Surf("add_plate", "pl", "A", "E", "C", "D"),
             Node("G", "4.25", 0), Member("v", "G", "D", "mat", None, None), Del("delete_node", "node", "E"), Del("delete_node", "node", "B"), Analyze("general", None), Bare("rename") >>

\* A grid frame with springs, an internal node, two cases and combinations for histories of analyses and edits
Grid == << Mat("mat", 200, 2), Mat("soft", 100, 1), Node("A", 0, 0), Node("B", 4, 0), Node("C", 4, 3), Node("D", 0, 3), Node("I", 2, 0), [Node("T", 2, 1) EXCEPT !.Z = 3],
           Member("m", "A", "B", "mat", None, None), Member("n", "B", "C", "mat", None, None), Member("o", "C", "D", "soft", None, None), Member("t", "T", "C", "mat", None, None), Member("v", "I", "T", "soft", None, None),
           Sup("A", Every), Sup("D", [d \in 1..6 |-> d \in {2, 3}]), Spring("s", "C", "A"), SSpring("T", "DZ", 40, None), SSpring("B", "DY", 30, "-"),
           NLoad("C", "FY", -3, "dead"), NLoad("T", "FX", 2, "live"), DLoad("m", "Fy", -1, -2, 1, None, "dead"), PLoad("n", "FZ", 4, 1, "live"), Disp("D", "DY", "0.01"),
           Combo("U", ("dead" :> 1 @@ "live" :> 1), <<"a">>), Combo("V", "live" :> -1, <<"b">>) >>
Analyses == << Analyze("general", None), Analyze("linear", None), Analyze("pdelta", None), Analyze("general", <<"a">>), Analyze("linear", <<"b">>) >>
Edits == << NLoad("B", "MZ", 3, "live"), DLoad("o", "FZ", 1, 2, None, None, "dead"), PLoad("m", "Fx", 5, 2, "live"), Weight("FY", -1, "dead"), Bare("delete_loads"),
            Combo("U", "dead" :> 2, <<"a">>), Combo("W", ("dead" :> 1 @@ "live" :> 3), <<"a", "b">>), Del("del_combo", "name", "V"),
            Sup("D", Every), Sup("B", [d \in 1..6 |-> d = 3]), Sup("A", [d \in 1..6 |-> d # 4]), SSpring("T", "DZ", 10, "+"), SSpring("B", "DY", None, None), SSpring("C", "RX", 20, None), Disp("D", "DY", None), Disp("A", "RZ", "0.02"),
            Release("m", {5, 6}), Release("o", {6, 12}), Release("m", {}), Node("J", 3, 0), [Node("K", 3, "1.5") EXCEPT !.Z = "1.5"], Del("delete_node", "node", "I"), Del("delete_node", "node", "T"), Del("delete_member", "member", "v"), Del("delete_spring", "spring", "s"),
            Member("w", "A", "C", "soft", None, None), Member("x", "B", "T", "mat", None, None), [Member("y", "D", "T", "soft", None, None) EXCEPT !.to = TRUE], [Spring("r", "T", "A") EXCEPT !.co = TRUE], Surf("add_quad", "qu", "A", "B", "C", "D"), Surf("add_plate", "pl", "A", "B", "C", "D"),
            Set("mats", "mat", "E", 300), Set("mats", "soft", "G", 20), Set("members", "n", "Iz", 2), Set("members", "n", "A", 2), Set("members", "t", "to", TRUE), Set("springs", "s", "ks", 5), Set("nodes", "C", "Y", 4), Set("nodes", "I", "X", 1),
            Bare("rename"), [op |-> "merge_duplicate_nodes", tol |-> None] >>

Base  == CASE Group = "merges" -> Twins [] Group = "history" -> Grid [] OTHER -> Frame
Alpha == CASE Group = "names" -> Names [] Group = "refs" -> Refs [] Group = "loads" -> Loads [] Group = "supports" -> Supports [] Group = "merges" -> Merges [] Group = "history" -> Analyses \o Edits
\* A history is an analysis followed by edits; its order matters.  Renaming comes last (the names after it are the code's).
Allowed(h, a) == IF Group = "history" THEN (h = <<>>) = (a <= Len(Analyses)) /\ \A k \in DOMAIN h : Alpha[h[k]].op # "rename" ELSE TRUE
ASSUME PrintT("BASE " \o ToJson(Base))
ASSUME PrintT("ALPHA " \o ToJson(Alpha))

----------------------------------------------------------------------------
VARIABLES m, hist
vars == <<m, hist>>

\* A name for an entity created without one: "<registry>#<number of such calls>"
Unnamed(e) == e.op \in Adders /\ NoName(e.name)
StoreName(h, e) == IF ~Unnamed(e) THEN (IF "name" \in DOMAIN e THEN e.name ELSE None)
                   ELSE Registry(e.op) \o "#" \o ToString(1 + Cardinality({k \in DOMAIN h : Unnamed(Alpha[h[k]]) /\ Alpha[h[k]].op = e.op}))

\* Renaming and merging choose names; what they may do is judged on the recorded content (Content), here they only discard the solution
After(x, e, name) == IF e.op \in {"rename", "merge_duplicate_nodes"} THEN SetSolved(x, FALSE)
                     ELSE IF e.op = "analyze" THEN Apply(x, e, name)
                     ELSE IF Legal(x, e) THEN Apply(x, e, name) ELSE x
\* Attributes can be set on entities that are there
Possible(x, e) == CASE e.op = "set" -> e.name \in DOMAIN x[e.kind] [] e.op = "del_combo" -> e.name \in DOMAIN x.combos [] OTHER -> TRUE
\* Unnamed nodes of one history lie apart (X counts the calls before)
Concrete(h, e) == IF e.op = "add_node" /\ Unnamed(e) THEN [e EXCEPT !.X = 10 + Len(h)] ELSE e
Step(x, h, a) == After(x, Concrete(h, Alpha[a]), StoreName(h, Alpha[a]))

RECURSIVE Run(_, _)
Run(x, es) == IF es = <<>> THEN x ELSE Run(Apply(x, Head(es), StoreName(<<>>, Head(es))), Tail(es))

Init == m = Run(EmptyModel, Base) /\ hist = <<>>
Bounded == Len(hist) < MaxLen      \* states at the bound are checked but not left
Next == /\ \E a \in 1..Len(Alpha) :
             /\ Possible(m, Alpha[a]) /\ Allowed(hist, a)
             /\ m' = Step(m, hist, a)
             /\ hist' = Append(hist, a)
             /\ PrintT("EDGE " \o ToString(hist'))
View == IF Group = "history" THEN <<m, hist>> ELSE <<m, <<>>>>

----------------------------------------------------------------------------
(* Invariants of every reachable content *)

LoadsOf(x) == UNION {Rng(x.nodes[n].loads) : n \in DOMAIN x.nodes}
\* Deleting all loads leaves no load case and keeps everything else
DeletingLoads == LET x == Apply(m, Bare("delete_loads"), None)
                 IN  /\ CasesUsed(x) = {}
                     /\ DOMAIN x.nodes = DOMAIN m.nodes /\ \A n \in DOMAIN m.nodes : [x.nodes[n] EXCEPT !.loads = m.nodes[n].loads] = m.nodes[n]
                     /\ \A reg \in Elements : DOMAIN x[reg] = DOMAIN m[reg]
                     /\ Apply(x, Bare("delete_loads"), None) = x
\* Deleting a node leaves no reference to it and nothing else changes
DeletingNodes == \A n \in DOMAIN m.nodes :
                   LET x == Apply(m, Del("delete_node", "node", n), None)
                   IN  /\ DOMAIN x.nodes = DOMAIN m.nodes \ {n}
                       /\ \A reg \in Elements : \A k \in DOMAIN m[reg] : (k \in DOMAIN x[reg]) = (n \notin Ends(reg, m[reg][k]))
                       /\ Orphans(x) \subseteq Orphans(m) \cup UNION {UNION {Ends(reg, m[reg][k]) : k \in {q \in DOMAIN m[reg] : n \in Ends(reg, m[reg][q])}} : reg \in Elements}
\* An entity added under a fresh name can be deleted again without a trace
AddDelete == LET x == Apply(m, Node("fresh", 1, 1), "fresh") IN SetSolved(Apply(x, Del("delete_node", "node", "fresh"), None), m.solved) = m
\* An existing name is never taken again
NoSecond == \A n \in DOMAIN m.nodes : ~Legal(m, Node(n, 0, 0))
RefsInside == \A reg \in Elements : \A k \in DOMAIN m[reg] : Ends(reg, m[reg][k]) \subseteq DOMAIN m.nodes
Inv == RefsOK(m) /\ RefsInside /\ DeletingLoads /\ DeletingNodes /\ AddDelete /\ NoSecond
=============================================================================
