------------------------------- MODULE OneWay -------------------------------
(***************************************************************************)
(* One-way members, springs and support springs, and P-Delta.              *)
(*                                                                         *)
(* An analysis of one combination is a walk over activation states         *)
(*   act = [mem, spr: name -> BOOLEAN, sup: node -> 6 BOOLEANs]            *)
(* starting with everything active.  In each state the equilibrium under   *)
(* the active parts is found; parts that carry a forbidden force may be    *)
(* dropped (members and springs for good), support springs are switched to *)
(* agree with the direction of their displacement.  The walk ends in a     *)
(* state that asks for no change.  P-Delta repeats the equilibrium with    *)
(* the geometric stiffness of the first-order axial forces and asks again. *)
(***************************************************************************)
EXTENDS Judge

OneWayMem(m) == {k \in DOMAIN m.members : m.members[k].to \/ m.members[k].co}
OneWaySpr(m) == {k \in DOMAIN m.springs : m.springs[k].to \/ m.springs[k].co}
OneWaySup(m) == {nd \in (DOMAIN m.nodes) \X (1..6) : LET s == m.nodes[nd[1]].spr[nd[2]] IN s # <<>> /\ s[2] # None}
HasOneWay(m) == OneWayMem(m) # {} \/ OneWaySpr(m) # {} \/ OneWaySup(m) # {}

----------------------------------------------------------------------------
(* Geometric stiffness *)

\* Mean axial force (tension positive) of a segment with global end displacements D
MeanAxial(seg, c, D) ==
  LET d == MVec(seg.T, D[seg.ni] \o D[seg.nj])
      fe == FixedEnd(Factored(seg.loads, c), seg.p.L)
  IN  IF seg.rel[1] THEN fe[1] ELSE IF seg.rel[7] THEN RNeg(fe[7]) ELSE ((seg.p.E ** seg.p.A) // seg.p.L) ** (d[7] -- d[1])

\* Geometric stiffness of every segment for the axial forces under D
Geo(m, cx, c, D) ==
  Eager([k \in DOMAIN m.members |-> [s \in 1..Len(cx.segs[k]) |->
           LET g == cx.segs[k][s] IN CondenseG(KGeometric(g.p, MeanAxial(g, c, D)), g.rel)]])

----------------------------------------------------------------------------
(* What a state asks for *)

\* Range of the axial force (compression positive) along member k, and the scale of rounding in it
AxialRange(cx, k, c, D) ==
  LET segs == cx.segs[k]
      F == Eager([s \in 1..Len(segs) |-> SegForce(segs[s], c, D)])
      lds == Eager([s \in 1..Len(segs) |-> Factored(segs[s].loads, c)])
      v == Eager(Concat([s \in 1..Len(segs) |-> CoreValues(PrimsX(F[s].f, lds[s]), 0, segs[s].p.L, "1e-9" ** segs[s].p.L)]))
      sc == RMaxSeq([s \in 1..Len(segs) |-> MacAbs(PrimsX(F[s].abs, lds[s]), 0, segs[s].p.L) ++ ("1e-3" ** F[s].max)])
  IN  [hi |-> SupOf(v), lo |-> InfOf(v), sc |-> sc]

\* How far an element is beyond what it may carry, and the scale of rounding in that
MemExcess(m, cx, k, c, D) == LET r == AxialRange(cx, k, c, D) IN [x |-> IF m.members[k].to THEN r.hi ELSE RNeg(r.lo), sc |-> r.sc]
SprExcess(m, k, D) == LET s == m.springs[k]  e == s.ks ** SpringElong(m, s, D)
                      IN  [x |-> IF s.to THEN RNeg(e) ELSE e, sc |-> RAbs(s.ks) ** (SpringAbs(m, s, D) ++ ("1e-4" ** MaxDisp(m, D)))]

Edge == "1e-8"
Surely(v) == (Edge ** v.sc) \prec v.x
Possibly(v) == RNeg(Edge ** v.sc) \preceq v.x

\* [mem, spr: elements carrying a forbidden force; memP, sprP: those that do or are within rounding of it;
\*  sup: wanted state of each one-way support spring: "on", "off" or "either"]
Wants(m, cx, c, act, D) ==
  LET em == Eager([k \in {q \in OneWayMem(m) : act.mem[q]} |-> MemExcess(m, cx, k, c, D)])
      es == Eager([k \in {q \in OneWaySpr(m) : act.spr[q]} |-> SprExcess(m, k, D)])
      dmax == MaxDisp(m, D)
      want(nd) == LET x == D[nd[1]][nd[2]]  dir == m.nodes[nd[1]].spr[nd[2]][2]
                  IN  IF RAbs(x) \preceq (Edge ** dmax) THEN "either" ELSE IF (dir = "-") = (x \prec 0) THEN "on" ELSE "off"
  IN  Eager([mem |-> {k \in DOMAIN em : Surely(em[k])}, memP |-> {k \in DOMAIN em : Possibly(em[k])},
             spr |-> {k \in DOMAIN es : Surely(es[k])}, sprP |-> {k \in DOMAIN es : Possibly(es[k])},
             sup |-> [nd \in OneWaySup(m) |-> want(nd)]])

Without(act, M, S, sup) ==
  Eager([mem |-> [k \in DOMAIN act.mem |-> act.mem[k] /\ k \notin M], spr |-> [k \in DOMAIN act.spr |-> act.spr[k] /\ k \notin S],
         sup |-> [n \in DOMAIN act.sup |-> [d \in 1..6 |-> IF <<n, d>> \in DOMAIN sup THEN sup[<<n, d>>] ELSE act.sup[n][d]]]])

Wrong(m, act, w) == {nd \in OneWaySup(m) : (w.sup[nd] = "on" /\ ~act.sup[nd[1]][nd[2]]) \/ (w.sup[nd] = "off" /\ act.sup[nd[1]][nd[2]])}
AnyEdge(w) == w.mem # w.memP \/ w.spr # w.sprP \/ \E nd \in DOMAIN w.sup : w.sup[nd] = "either"
Flipped(m, act, N) == [nd \in N |-> ~act.sup[nd[1]][nd[2]]]

----------------------------------------------------------------------------
(* The walk that makes every change it is asked for at once *)

\* end: "settled", "unstable" or "loops"; n: equilibrium states found; edge: some decision was within rounding
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(m, cx, c, pd, act, geo, n, edge) ==
  LET S == ExactSolve(m, cx, c, act, geo)
  IN  IF n > 40 THEN [end |-> "loops", act |-> act, n |-> n, edge |-> edge]
      ELSE IF ~S.ok THEN [end |-> "unstable", act |-> act, n |-> n, edge |-> edge]
      ELSE LET w == Wants(m, cx, c, act, S.D)
               N == Wrong(m, act, w)
               e == edge \/ AnyEdge(w)
           IN  IF w.mem = {} /\ w.spr = {} /\ N = {}
               THEN IF pd /\ geo = <<>> /\ DOMAIN m.members = {} THEN [end |-> "settled", act |-> act, n |-> n + 1, edge |-> e]
                    ELSE IF pd /\ geo = <<>> THEN Walk(m, cx, c, pd, act, Geo(m, cx, c, S.D), n + 1, e)
                    ELSE [end |-> "settled", act |-> act, n |-> n, edge |-> e]
               ELSE Walk(m, cx, c, pd, Without(act, w.mem, w.spr, Flipped(m, act, N)), <<>>, n + 1, e)
TheWalk(m, cx, c, pd) == Eager(Walk(m, cx, c, pd, AllActive(m), <<>>, 1, FALSE))

(* Every walk: any non-empty choice among the changes asked for (or within rounding of being asked for) *)

SafeSolve(m, cx, c, act, geo) == ExactSolve(m, cx, c, act, geo)
Successors(m, cx, c, pd, act) ==
  LET S == SafeSolve(m, cx, c, act, <<>>)
      w1 == Wants(m, cx, c, act, S.D)
      G == Geo(m, cx, c, S.D)
      S2 == SafeSolve(m, cx, c, act, G)
      w2 == Wants(m, cx, c, act, S2.D)
      next(w) == {Without(act, M, P, Flipped(m, act, N)) :
                    M \in SUBSET w.memP, P \in SUBSET w.sprP, N \in SUBSET (Wrong(m, act, w) \cup {nd \in OneWaySup(m) : w.sup[nd] = "either"})}
  IN  IF ~S.ok THEN {} ELSE Eager(next(w1)) \cup (IF pd /\ S2.ok THEN Eager(next(w2)) ELSE {})
RECURSIVE Reach(_, _, _, _, _, _)
Reach(m, cx, c, pd, done, todo) ==
  IF todo = {} \/ Cardinality(done) > 64 THEN done \cup todo
  ELSE LET new == UNION {Successors(m, cx, c, pd, a) : a \in todo}
       IN  Reach(m, cx, c, pd, done \cup todo, new \ (done \cup todo))

----------------------------------------------------------------------------
(* Judging reported results *)

AllZero(v) == \A k \in DOMAIN v : RIsNum(v[k]) /\ REq(v[k], 0)
\* The activation state the reported results show.  A one-way element that reports exactly zero end forces
\* although its ends are displaced is inactive; so is a support spring without reaction at a displaced node.
ActOf(m, cx, c, o) ==
  Eager([mem |-> [k \in DOMAIN m.members |-> ~(k \in OneWayMem(m) /\ k \in DOMAIN o.mem /\ AllZero(o.mem[k].f)
                                               /\ \E s \in 1..Len(cx.segs[k]) : ~AllZero(SegForce(cx.segs[k][s], c, o.D).f))],
         spr |-> [k \in DOMAIN m.springs |-> ~(k \in OneWaySpr(m) /\ k \in DOMAIN o.spr /\ AllZero(o.spr[k].f) /\ ~REq(SpringElong(m, m.springs[k], o.D), 0))],
         sup |-> [n \in DOMAIN m.nodes |-> [d \in 1..6 |-> LET s == m.nodes[n].spr[d] IN s # <<>> /\ ~(s[2] # None /\ REq(o.R[n][d], 0) /\ ~REq(o.D[n][d], 0))]]])

QueriesZero(om) ==
  /\ \A i \in DOMAIN om.q : om.q[i].k \in {"V", "M", "N", "T"} => (RIsNum(om.q[i].v) /\ REq(om.q[i].v, 0))
  /\ \A i \in DOMAIN om.ext : om.ext[i].k \in {"V", "M", "N", "T"} => (RIsNum(om.ext[i].mx) /\ REq(om.ext[i].mx, 0) /\ RIsNum(om.ext[i].mn) /\ REq(om.ext[i].mn, 0))
  /\ \A i \in DOMAIN om.arr : om.arr[i].k \in {"V", "M", "N", "T"} => \A j \in DOMAIN om.arr[i].v : RIsNum(om.arr[i].v[j]) /\ REq(om.arr[i].v[j], 0)

JudgeSpring(m, k, o) ==
  LET s == m.springs[k]  F == s.ks ** SpringElong(m, s, o.D)  f == o.spr[k].f
      tol == ("1e-8" ** (RAbs(s.ks) ** SpringAbs(m, s, o.D))) ++ "1e-60"
  IN  Fail(\A d \in 1..12 : Within(f[d], IF d = 1 THEN RNeg(F) ELSE IF d = 7 THEN F ELSE 0, tol), "spring force", <<k, [d \in {1, 7} |-> RStr(f[d])], RStr(F)>>)
      \cup Fail(Within(o.spr[k].n, RNeg(F), tol), "spring axial force", <<k, RStr(o.spr[k].n), RStr(F)>>)

JudgeAdmissible(m, cx, c, o, act) ==
  LET dmax == MaxDisp(m, o.D)
      over(v) == ("1e-7" ** v.sc) \prec v.x
  IN  UNION {LET v == MemExcess(m, cx, k, c, o.D) IN Fail(~over(v), "one-way member", <<k, RStr(v.x)>>) : k \in {q \in OneWayMem(m) : act.mem[q]}}
      \cup UNION {LET v == SprExcess(m, k, o.D) IN Fail(~over(v), "one-way spring", <<k, RStr(v.x)>>) : k \in {q \in OneWaySpr(m) : act.spr[q]}}
      \cup UNION {LET x == o.D[nd[1]][nd[2]]
                      way == (m.nodes[nd[1]].spr[nd[2]][2] = "-") = (x \prec 0)
                  IN  Fail(RAbs(x) \preceq ("1e-7" ** dmax) \/ way = act.sup[nd[1]][nd[2]], "one-way support spring", <<nd, RStr(x), act.sup[nd[1]][nd[2]]>>) : nd \in OneWaySup(m)}
      \cup UNION {Fail(act.mem[k] \/ k \notin DOMAIN o.mem \/ QueriesZero(o.mem[k]), "inactive member reports forces", k) : k \in OneWayMem(m)}
      \cup UNION {Fail(act.spr[k] \/ k \notin DOMAIN o.spr \/ (RIsNum(o.spr[k].n) /\ REq(o.spr[k].n, 0)), "inactive spring reports force", k) : k \in OneWaySpr(m)}

SameState(m, a, b) == /\ \A k \in OneWayMem(m) : a.mem[k] = b.mem[k]
                      /\ \A k \in OneWaySpr(m) : a.spr[k] = b.spr[k]
                      /\ \A nd \in OneWaySup(m) : a.sup[nd[1]][nd[2]] = b.sup[nd[1]][nd[2]]
\* The state of a part that carries nothing cannot be seen
Unseen(m, cx, c, o) == [mem |-> {k \in OneWayMem(m) : k \in DOMAIN o.mem /\ \A s \in 1..Len(cx.segs[k]) : AllZero(SegForce(cx.segs[k][s], c, o.D).f)},
                        spr |-> {k \in OneWaySpr(m) : REq(SpringElong(m, m.springs[k], o.D), 0)},
                        sup |-> {nd \in OneWaySup(m) : REq(o.D[nd[1]][nd[2]], 0)}]
SameSeen(m, u, a, b) == /\ \A k \in OneWayMem(m) \ u.mem : a.mem[k] = b.mem[k]
                        /\ \A k \in OneWaySpr(m) \ u.spr : a.spr[k] = b.spr[k]
                        /\ \A nd \in OneWaySup(m) \ u.sup : a.sup[nd[1]][nd[2]] = b.sup[nd[1]][nd[2]]

\* The second-order problem's geometric stiffness in a final state; ok = FALSE when the first-order problem has no solution
FinalGeo(m, cx, c, act, pd) ==
  IF ~pd THEN [ok |-> TRUE, g |-> <<>>]
  ELSE LET S == ExactSolve(m, cx, c, act, <<>>) IN IF S.ok THEN [ok |-> TRUE, g |-> Geo(m, cx, c, S.D)] ELSE [ok |-> FALSE, g |-> <<>>]

JudgeNonlinear(m, cx, c, o, pd) ==
  LET act == ActOf(m, cx, c, o)
      G == Eager(FinalGeo(m, cx, c, act, pd))
      R == Eager(Residual(m, cx, c, o.D, act, G.g))
      w == TheWalk(m, cx, c, pd)
      u == Unseen(m, cx, c, o)
  IN  Fail(G.ok, "no first-order solution in the reported state", "")
      \cup (IF G.ok THEN JudgeDisplacements(m, cx, o, R) ELSE {})
      \cup JudgeAdmissible(m, cx, c, o, act)
      \cup UNION {JudgeSpring(m, k, o) : k \in {q \in DOMAIN m.springs \cap DOMAIN o.spr : act.spr[q]}}
      \cup (IF pd THEN {} ELSE UNION {JudgeEndForces(k, MemberEval(m, cx, k, c, o.D), o.mem[k].f) : k \in {q \in DOMAIN o.mem : act.mem[q]}})
      \cup (IF pd THEN {} ELSE JudgeReactions(m, cx, o, R, DOMAIN m.plates = {} /\ DOMAIN m.quads = {}))
      \cup (IF ~HasOneWay(m) THEN {}
            ELSE Fail((w.end = "settled" /\ SameSeen(m, u, act, w.act)) \/ \E a \in Reach(m, cx, c, pd, {}, {AllActive(m)}) : SameSeen(m, u, act, a),
                      "dropped without a forbidden force", <<[k \in OneWayMem(m) |-> act.mem[k]], [k \in OneWaySpr(m) |-> act.spr[k]], [nd \in OneWaySup(m) |-> act.sup[nd[1]][nd[2]]], w.end>>))

\* May an analysis of combination c be rejected?
MayReject(m, cx, c, pd, maxIter) ==
  LET w == TheWalk(m, cx, c, pd)
  IN  \/ w.end # "settled"
      \/ w.n > maxIter
      \/ /\ w.edge
         /\ LET rs == Reach(m, cx, c, pd, {}, {AllActive(m)})
            IN  \/ Cardinality(rs) * (IF pd THEN 2 ELSE 1) > maxIter
                \/ \E a \in rs : ~ExactSolve(m, cx, c, a, <<>>).ok
=============================================================================
