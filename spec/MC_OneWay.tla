------------------------------ MODULE MC_OneWay ------------------------------
(***************************************************************************)
(* The activation state machine of OneWay on families of small structures: *)
(*  chain  springs and bars in a row, tension-only, compression-only or    *)
(*         both ways, with a stop ("+"/"-" support spring) at the end      *)
(*  beam   a continuous beam on support springs acting both ways, up or    *)
(*         down                                                            *)
(*  panel  a portal with two diagonals of any kind                         *)
(* TLC explores every walk (every non-empty choice among the changes a     *)
(* state asks for) of every selected structure and checks the invariants;  *)
(* the structures are printed and analysed with the real code.             *)
(***************************************************************************)
EXTENDS OneWay, Json, IOUtils

Stride == atoi(IOEnv.MC_STRIDE)
Offset == atoi(IOEnv.MC_OFFSET)
Family == IOEnv.MC_FAMILY

NodeAt(n, x, y) == [op |-> "add_node", name |-> n, X |-> x, Y |-> y, Z |-> 0]
Only(n, S) == [op |-> "def_support", node |-> n, s |-> [d \in 1..6 |-> d \in S]]
Spr(n, i, j, k, to, co) == [op |-> "add_spring", name |-> n, i |-> i, j |-> j, ks |-> k, to |-> to, co |-> co]
Mem(n, i, j, a, iz, to, co) == [op |-> "add_member", name |-> n, i |-> i, j |-> j, mat |-> "mat", Iy |-> 1, Iz |-> iz, J |-> 1, A |-> a, aux |-> None, to |-> to, co |-> co, sec |-> None]
Stop(n, d, k, dir) == [op |-> "def_support_spring", node |-> n, dof |-> d, ks |-> k, dir |-> dir]
Push(n, d, P) == IF P = 0 THEN <<>> ELSE << [op |-> "add_node_load", node |-> n, dir |-> d, P |-> P, case |-> "L"] >>
Combos == << [op |-> "add_load_combo", name |-> "U", factors |-> ("L" :> 1), tags |-> <<"a">>], [op |-> "add_load_combo", name |-> "V", factors |-> ("L" :> -1), tags |-> <<"b">>] >>
Start == << [op |-> "add_material", name |-> "mat", E |-> 100, G |-> 40, nu |-> "0.25", rho |-> 1] >>
Hinge(k) == [op |-> "def_releases", member |-> k, r |-> [q \in 1..12 |-> q \in {5, 6, 11, 12}]]
Ns == <<"N0", "N1", "N2", "N3">>
Digit(n, base, k) == (n \div (base ^ k)) % base

\* A part between two nodes. kind 0 spring, 1 tension-only spring, 2 compression-only spring, 3 tension-only bar, 4 compression-only bar
Part(name, i, j, kind, k) == IF kind <= 2 THEN << Spr(name, i, j, 10 * k, kind = 1, kind = 2) >> ELSE << Mem(name, i, j, k, 1, kind = 3, kind = 4) >>

ChainCount == 125 * 27 * 4
Row(n) ==
  LET kinds == n % 125  loads == (n \div 125) % 27  end == (n \div (125 * 27)) % 4
  IN  Start \o [q \in 1..4 |-> NodeAt(Ns[q], 3 * (q - 1), 0)]
      \o [q \in 1..4 |-> Only(Ns[q], IF q = 1 \/ (q = 4 /\ end = 1) THEN 1..6 ELSE 2..6)]
      \o Part("e1", "N0", "N1", Digit(kinds, 5, 0), 3) \o Part("e2", "N1", "N2", Digit(kinds, 5, 1), 2) \o Part("e3", "N2", "N3", Digit(kinds, 5, 2), 5)
      \o (IF end >= 2 THEN << Stop("N3", "DX", 15, IF end = 2 THEN "+" ELSE "-") >> ELSE <<>>)
      \* weak springs to the ground keep most of them stable
      \o << Stop("N1", "DX", 1, None), Stop("N2", "DX", 2, None) >> \o (IF end # 1 THEN << Spr("g", "N0", "N3", 1, FALSE, FALSE) >> ELSE <<>>)
      \o Push("N1", "FX", 5 * (Digit(loads, 3, 0) - 1)) \o Push("N2", "FX", 7 * (Digit(loads, 3, 1) - 1)) \o Push("N3", "FX", 3 * (Digit(loads, 3, 2) - 1)) \o Combos

BeamCount == 256 * 81
Beam4(n) ==
  LET sup == n % 256  loads == n \div 256
      stop(q) == LET k == Digit(sup, 4, q - 1) IN IF k = 0 THEN <<>> ELSE << Stop(Ns[q], "DY", 10 + (3 * q), <<None, "+", "-">>[k]) >>
  IN  Start \o [q \in 1..4 |-> NodeAt(Ns[q], (3 * (q - 1)) + (IF q = 3 THEN 1 ELSE 0), 0)]
      \o [q \in 1..4 |-> Only(Ns[q], {1, 3, 4, 5})]
      \o << Mem("b1", "N0", "N1", 10, 2, FALSE, FALSE), Mem("b2", "N1", "N2", 10, 2, FALSE, FALSE), Mem("b3", "N2", "N3", 10, 2, FALSE, FALSE) >>
      \o stop(1) \o stop(2) \o stop(3) \o stop(4)
      \o Push("N0", "FY", 4 * (Digit(loads, 3, 0) - 1)) \o Push("N1", "FY", 7 * (Digit(loads, 3, 1) - 1)) \o Push("N2", "FY", 5 * (Digit(loads, 3, 2) - 1)) \o Push("N3", "FY", 3 * (Digit(loads, 3, 3) - 1)) \o Combos

PanelCount == 36 * 9 * 9
Panel(n) ==
  LET dg == n % 36  loads == (n \div 36) % 9  col == n \div (36 * 9)
      \* 0 none, 1 bar both ways, 2 tension-only bar, 3 compression-only bar, 4 tension-only spring, 5 compression-only spring
      diag(name, i, j, k, a) == CASE k = 0 -> <<>> [] k \in {1, 2, 3} -> << Mem(name, i, j, a, 1, k = 2, k = 3), Hinge(name) >> [] k = 4 -> << Spr(name, i, j, 20 * a, TRUE, FALSE) >> [] k = 5 -> << Spr(name, i, j, 20 * a, FALSE, TRUE) >>
      \* columns: both ways, tension-only or compression-only
      column(name, i, j, k) == << Mem(name, i, j, 6, 3, k = 1, k = 2) >>
  IN  Start \o << NodeAt("N0", 0, 0), NodeAt("N1", 0, 3), NodeAt("N2", 4, 3), NodeAt("N3", 4, 0) >>
      \o << Only("N0", 1..6), Only("N3", 1..6), Only("N1", {3, 4, 5}), Only("N2", {3, 4, 5}) >>
      \o column("c1", "N0", "N1", col % 3) \o column("c2", "N3", "N2", col \div 3) \o << Mem("b", "N1", "N2", 8, 4, FALSE, FALSE) >>
      \o diag("d1", "N0", "N2", dg % 6, 2) \o diag("d2", "N3", "N1", dg \div 6, 3)
      \o Push("N1", "FX", 6 * ((loads % 3) - 1)) \o Push("N2", "FY", 9 * ((loads \div 3) - 1)) \o Combos

Count == CASE Family = "chain" -> ChainCount [] Family = "beam" -> BeamCount [] Family = "panel" -> PanelCount
Events(n) == Eager(CASE Family = "chain" -> Row(n) [] Family = "beam" -> Beam4(n) [] Family = "panel" -> Panel(n))
\* Every Stride-th structure, in an order that mixes all digits
Picked == {((k * 7919) + Offset) % Count : k \in 0..((Count - 1) \div Stride)}

RECURSIVE Build(_, _)
Build(x, es) == IF es = <<>> THEN x ELSE Build(Apply(x, Head(es), IF "name" \in DOMAIN Head(es) THEN Head(es).name ELSE None), Tail(es))
ModelOf(n) == Eager(Build(EmptyModel, Events(n)))
ASSUME \A n \in Picked : PrintT("CASE " \o ToJson([id |-> ToString(n), events |-> Events(n)]))

----------------------------------------------------------------------------
VARIABLES n, combo, pd, act, steps, settled
vars == <<n, combo, pd, act, steps, settled>>
m == ModelOf(n)
cx == Ctx(m)
c == m.combos[combo]

\* The structure with the active parts a is stable, also to second order
Solid(M, X, C, a) == LET s1 == ExactSolve(M, X, C, a, <<>>) IN s1.ok /\ (pd => ExactSolve(M, X, C, a, Geo(M, X, C, s1.D)).ok)

Init == /\ n \in Picked /\ combo \in {"U", "V"} /\ pd \in BOOLEAN
        /\ act = AllActive(ModelOf(n)) /\ steps = 0
        /\ settled = FALSE
\* One step of a walk: settle, or make some of the changes asked for
Next == LET M == m  X == Ctx(M)  C == M.combos[combo]
            S == Eager(ExactSolve(M, X, C, act, <<>>))
            w == Wants(M, X, C, act, S.D)
            calm == S.ok /\ w.mem = {} /\ w.spr = {} /\ Wrong(M, act, w) = {}
        IN  /\ IF steps = 0 THEN PrintT("WALK " \o ToJson([id |-> ToString(n), end |-> TheWalk(M, X, C, pd).end,
                                                       sure |-> \A a \in Reach(M, X, C, pd, {}, {act}) : Solid(M, X, C, a)])) ELSE TRUE
            /\ ~settled
            /\ \/ /\ calm /\ ~pd
                  /\ settled' = TRUE /\ UNCHANGED <<act, steps>>
               \/ /\ \E a \in Successors(M, X, C, pd, act) \ {act} : act' = a
                  /\ steps' = steps + 1 /\ settled' = FALSE
            /\ UNCHANGED <<n, combo, pd>>
Bounded == steps < 6
View == <<n, combo, pd, act, settled>>

----------------------------------------------------------------------------
\* Members and springs are dropped for good
DropsOnly == [][(\A k \in DOMAIN act.mem : act'.mem[k] => act.mem[k]) /\ (\A k \in DOMAIN act.spr : act'.spr[k] => act.spr[k])]_vars
\* Only one-way parts are dropped
OnlyOneWay == /\ \A k \in DOMAIN act.mem : act.mem[k] \/ k \in OneWayMem(m)
              /\ \A k \in DOMAIN act.spr : act.spr[k] \/ k \in OneWaySpr(m)
              /\ \A a \in DOMAIN act.sup : \A d \in 1..6 : act.sup[a][d] = (m.nodes[a].spr[d] # <<>>) \/ <<a, d>> \in OneWaySup(m)
\* The walk that makes every change at once is one of the walks, and without support springs it ends
GreedyIsAWalk ==
  steps = 0 /\ HasOneWay(m) =>
    LET w == TheWalk(m, cx, c, pd)
    IN  /\ w.act \in Reach(m, cx, c, pd, {}, {AllActive(m)}) \/ w.end = "loops"
        /\ OneWaySup(m) = {} => w.end # "loops" /\ w.n <= 2 * (Cardinality(OneWayMem(m)) + Cardinality(OneWaySpr(m)) + 1)
\* Support springs alone: whatever walk is taken, the displacements it settles with are the same
\* (unless a support spring in use carries nothing: then the structure may be free to rotate without it)
OneAnswer ==
  settled /\ OneWayMem(m) = {} /\ OneWaySpr(m) = {} =>
    LET w == TheWalk(m, cx, c, FALSE)
        D1 == Eager(ExactSolve(m, cx, c, act, <<>>).D)  D2 == Eager(ExactSolve(m, cx, c, w.act, <<>>).D)
    IN  w.end = "settled" /\ ~AnyEdge(Wants(m, cx, c, act, D1)) => \A a \in DOMAIN m.nodes : \A d \in 1..6 : RAbs(D1[a][d] -- D2[a][d]) \preceq ("1e-6" ** MaxDisp(m, D1))
Inv == OnlyOneWay /\ GreedyIsAWalk /\ OneAnswer
=============================================================================
