------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* Relations between observations: a comparison is a list of terms         *)
(*   [o: an observation, w: weight, nm: reference node -> candidate names, *)
(*    mm: reference member -> name, rot: <<cos, sin>> or null, sg]         *)
(* and holds when the weighted sum of the terms vanishes for every nodal   *)
(* result and every member result that the first term contains.            *)
(* Queries are aligned by position in the query lists.                     *)
(***************************************************************************)
EXTENDS Judge

FirstIn(cands, dom) == LET I == {k \in DOMAIN cands : cands[k] \in dom} IN IF I = {} THEN None ELSE cands[CHOOSE k \in I : \A j \in I : k <= j]

\* Rotation about the global Y axis taking the term's frame to the reference frame
RotY(cs, v) == IF IsNull(cs) THEN v
               ELSE LET R(a, b, c) == <<(cs[1] ** a) ++ (cs[2] ** c), b, (cs[1] ** c) -- (cs[2] ** a)>>
                    IN  R(v[1], v[2], v[3]) \o R(v[4], v[5], v[6])

NodeName(t, n) == IF IsNull(t.nm) THEN n ELSE FirstIn(t.nm[n], DOMAIN t.o.D)
MemName(t, k) == IF IsNull(t.mm) THEN k ELSE t.mm[k]
MemSign(t, k, kind) == IF IsNull(t.sg) \/ k \notin DOMAIN t.sg THEN 1 ELSE t.sg[k][kind]

MaxD(o) == LET ns == SetToSeq(DOMAIN o.D) IN RMaxSeq(<<0>> \o [k \in 1..Len(ns) |-> RMaxSeq(VAbs(o.D[ns[k]]))])
MaxR(o) == LET ns == SetToSeq(DOMAIN o.R) IN RMaxSeq(<<0>> \o [k \in 1..Len(ns) |-> RMaxSeq(VAbs(o.R[ns[k]]))])
RSumSeq(n, F(_)) == RSum([k \in 1..n |-> F(k)])

\* Are the values comparable: all numbers, or all the same non-number
AllNum(n, V(_)) == \A k \in 1..n : RIsNum(V(k))
Vanishes(ts, V(_), tol) == RAbs(RSumSeq(Len(ts), LAMBDA k : ts[k].w ** V(k))) \preceq tol
AbsOf(ts, V(_)) == RSumSeq(Len(ts), LAMBDA k : RAbs(ts[k].w) ** RAbs(V(k)))

\* Scale of rounding in member forces and displacements of a model under displacements of size d
BigForce(m, cx, d, lw) ==
  LET ks == SetToSeq(DOMAIN m.members)
      one(seg) == d ** RMaxSeq([i \in 1..12 |-> RMaxSeq(VAbs(seg.K[i]))])
  IN  lw ++ RMaxSeq(<<0>> \o [q \in 1..Len(ks) |-> RMaxSeq([s \in 1..Len(cx.segs[ks[q]]) |-> one(cx.segs[ks[q]][s])])])

\* The largest load of a model and its smallest member stiffness: the scale of rounding in results that vanish
LoadScale(m) ==
  LET ns == SetToSeq(DOMAIN m.nodes)  ks == SetToSeq(DOMAIN m.members)
      nod(n) == RMaxSeq(<<0>> \o [q \in DOMAIN m.nodes[n].loads |-> RAbs(m.nodes[n].loads[q][2])])
      mem(k) == RMaxSeq(<<0>> \o [q \in DOMAIN m.members[k].pt |-> RAbs(m.members[k].pt[q][2])]
                              \o [q \in DOMAIN m.members[k].dist |-> LET l == m.members[k].dist[q] IN RMax(RAbs(l[2]), RAbs(l[3])) ** l[5]])
  IN  RMaxSeq(<<0>> \o [q \in 1..Len(ns) |-> nod(ns[q])] \o [q \in 1..Len(ks) |-> mem(ks[q])])
Softness(m, cx) ==
  LET ks == SetToSeq(DOMAIN m.members)
      one(seg) == ((1 ++ seg.p.L) ** ((1 ++ seg.p.L) ** (1 ++ seg.p.L))) // (seg.p.E ** RMin(seg.p.A, RMin(seg.p.Iy, seg.p.Iz)))
  IN  RMaxSeq(<<0>> \o [q \in 1..Len(ks) |-> one(cx.segs[ks[q]][1])])

\* parts: which results are compared, a subset of {"D", "R", "mem", "spr", "pl"}
Compare(m, cx, ts, rel, parts) ==
  LET nodes == IF IsNull(ts[1].nm) THEN DOMAIN ts[1].o.D ELSE DOMAIN ts[1].nm
      known == \A t \in 1..Len(ts) : \A n \in nodes : NodeName(ts[t], n) # None /\ NodeName(ts[t], n) \in DOMAIN ts[t].o.D
      finite == \A t \in 1..Len(ts) : \A n \in DOMAIN ts[t].o.D : FiniteVec(ts[t].o.D[n]) /\ FiniteVec(ts[t].o.R[n])
      dmax == Eager(RMaxSeq([k \in 1..Len(ts) |-> RAbs(ts[k].w) ** MaxD(ts[k].o)]))
      rmax == Eager(RMaxSeq([k \in 1..Len(ts) |-> RAbs(ts[k].w) ** MaxR(ts[k].o)]))
      big  == Eager(BigForce(m, cx, dmax, RMax(rmax, LoadScale(m))))
      nodal(fld, tol) ==
        UNION {LET vs == Eager([k \in 1..Len(ts) |-> RotY(ts[k].rot, ts[k].o[fld][NodeName(ts[k], n)])])
               IN  UnionSeq(6, LAMBDA d : Fail(Vanishes(ts, LAMBDA k : vs[k][d], tol), fld, <<n, d, [k \in 1..Len(ts) |-> RStr(vs[k][d])], RStr(tol)>>))
               : n \in nodes}
      \* scalar: the values V(k) of one query
      scalar(what, V(_), tol) ==
        IF ~AllNum(Len(ts), V) THEN Fail(\A k \in 1..Len(ts) : ~RIsNum(V(k)) /\ V(k) = V(1), "result missing", <<what, [k \in 1..Len(ts) |-> RStr(V(k))]>>)
        ELSE Fail(Vanishes(ts, V, tol), "result", <<what, [k \in 1..Len(ts) |-> RStr(V(k))], RStr(tol)>>)
      \* scale of a list of values (largest magnitude over all terms)
      scaleOf(n, val(_, _)) == RMaxSeq(<<0>> \o Concat([k \in 1..Len(ts) |-> [i \in 1..n |-> IF RIsNum(val(k, i)) THEN RAbs(ts[k].w ** val(k, i)) ELSE 0]]))
      floorOf(k, kind) ==
        LET sg == cx.segs[k][1]
            L == Norm(VSub(Pos(m.nodes[m.members[k].j]), Pos(m.nodes[m.members[k].i])))
            cube == (1 ++ L) ** ((1 ++ L) ** (1 ++ L))
        IN  IF kind \in {"d", "r"} THEN ("1e-4" ** rel) ** ((dmax ++ (big // (sg.p.E ** RMin(sg.p.A, RMin(sg.p.Iy, sg.p.Iz))))) ** cube)
            ELSE ("1e-4" ** rel) ** (big ** (1 ++ L))
      member(k) ==
        LET om == Eager([t \in 1..Len(ts) |-> ts[t].o.mem[MemName(ts[t], k)]])
            sgn(t, kd) == MemSign(ts[t], k, kd)
            f(t, i) == om[t].f[i]
            q(t, i) == IF RIsNum(om[t].q[i].v) THEN sgn(t, om[t].q[i].k \o om[t].q[i].d) ** om[t].q[i].v ELSE om[t].q[i].v
            \* reversing the sign swaps the extremes
            x(t, i, hi) == LET e == om[t].ext[i] s == sgn(t, e.k \o e.d) IN IF (s = 1) = hi THEN (IF RIsNum(e.mx) THEN s ** e.mx ELSE e.mx) ELSE (IF RIsNum(e.mn) THEN s ** e.mn ELSE e.mn)
            a(t, i, j) == LET e == om[t].arr[i] IN e.v[j]
            nq == Len(om[1].q)
            same(kd, dr) == {i \in 1..nq : om[1].q[i].k = kd /\ om[1].q[i].d = dr}
            tolq == Eager([i \in 1..nq |-> LET e == om[1].q[i] S == SetToSeq(same(e.k, e.d))
                                           IN  (rel ** scaleOf(Len(S), LAMBDA t, z : q(t, S[z]))) ++ floorOf(k, e.k)])
        IN  (IF \A t \in 1..Len(ts) : IsNull(ts[t].sg)
             THEN LET tf == Eager((rel ** scaleOf(Len(om[1].f), LAMBDA t, z : f(t, z))) ++ floorOf(k, "V"))
                  IN  Fail(\A t \in 1..Len(ts) : Len(om[t].f) = Len(om[1].f), "result", <<k, "f">>) \cup UnionSeq(Len(om[1].f), LAMBDA i : scalar(<<k, "f", i>>, LAMBDA t : f(t, i), tf))
             ELSE {})
            \cup UnionSeq(nq, LAMBDA i : scalar(<<k, om[1].q[i].k, om[1].q[i].d, RStr(om[1].q[i].x)>>, LAMBDA t : q(t, i), tolq[i]))
            \cup UnionSeq(Len(om[1].ext), LAMBDA i :
                   LET e == om[1].ext[i]
                       tl == (rel ** scaleOf(2, LAMBDA t, z : x(t, i, z = 1))) ++ floorOf(k, e.k)
                   IN  scalar(<<k, "max", e.k, e.d>>, LAMBDA t : x(t, i, TRUE), tl) \cup scalar(<<k, "min", e.k, e.d>>, LAMBDA t : x(t, i, FALSE), tl))
            \cup UnionSeq(Len(om[1].arr), LAMBDA i :
                   LET e == om[1].arr[i] n == Len(e.v)
                       tl == (rel ** scaleOf(n, LAMBDA t, z : a(t, i, z))) ++ floorOf(k, e.k)
                   IN  IF \E t \in 1..Len(ts) : Len(om[t].arr[i].v) # n THEN {<<"result", <<k, "array length", e.k, e.d>>>>}
                       ELSE UnionSeq(n, LAMBDA j : scalar(<<k, "array", e.k, e.d, j>>, LAMBDA t : a(t, i, j), tl)))
      spring(k) == scalar(<<k, "spring force">>, LAMBDA t : ts[t].o.spr[k].n, (rel ** scaleOf(1, LAMBDA t, z : ts[t].o.spr[k].n)) ++ (("1e-4" ** rel) ** (big ++ (m.springs[k].ks ** dmax))))
      els == DOMAIN ts[1].o.pl
      el(k) == IF k \in DOMAIN m.plates THEN m.plates[k] ELSE m.quads[k]
      \* size of rounding in an element result: its stiffness times the largest displacement
      plScale(k, what) == LET e == el(k) t3 == e.E ** ((e.t ** e.t) ** e.t)
                              h == RMin(Norm(VSub(Pos(m.nodes[e.i]), Pos(m.nodes[e.j]))), Norm(VSub(Pos(m.nodes[e.j]), Pos(m.nodes[e.m]))))
                          IN  CASE what = "F" -> dmax ** (((e.E ** e.t) ** (1 ++ (1 // h))) ++ (t3 ** (1 ++ (1 // ((h ** h) ** h)))))
                                [] what = "S" -> dmax ** ((e.E // h) ++ e.E)
                                [] what = "M" -> dmax ** (t3 ** (1 ++ (1 // (h ** h))))
                                [] what = "Q" -> dmax ** (t3 ** (1 ++ (1 // ((h ** h) ** h))))
      plate(k) ==
        LET op == Eager([t \in 1..Len(ts) |-> ts[t].o.pl[k]])
            vecs(what, vs(_)) ==
              LET n == Len(vs(1))
                  tl == Eager((rel ** scaleOf(n, LAMBDA t, z : vs(t)[z])) ++ (rel ** plScale(k, what)))
              IN  IF \E t \in 1..Len(ts) : Len(vs(t)) # n THEN {<<"result", <<k, what, "length">>>>}
                  ELSE UnionSeq(n, LAMBDA i : scalar(<<k, what, i>>, LAMBDA t : vs(t)[i], tl))
        IN  vecs("F", LAMBDA t : op[t].F)
            \cup UnionSeq(Len(op[1].pts), LAMBDA p : vecs("M", LAMBDA t : op[t].pts[p].M) \cup vecs("Q", LAMBDA t : op[t].pts[p].Q) \cup vecs("S", LAMBDA t : op[t].pts[p].S))
  IN  IF ~known THEN {<<"node missing", nodes>>}
      ELSE IF ~finite THEN {<<"finite", "D or R">>}
      ELSE (IF "D" \in parts THEN nodal("D", ((rel ** dmax) ++ (("1e-6" ** rel) ** (big ** Softness(m, cx)))) ++ "1e-60") ELSE {})
           \cup (IF "R" \in parts THEN nodal("R", ((rel ** rmax) ++ (("1e-4" ** rel) ** big)) ++ "1e-60") ELSE {})
           \cup (IF "mem" \in parts THEN UNION {member(k) : k \in (IF IsNull(ts[1].mm) THEN DOMAIN ts[1].o.mem ELSE DOMAIN ts[1].mm)} ELSE {})
           \cup (IF "spr" \in parts THEN UNION {spring(k) : k \in DOMAIN ts[1].o.spr} ELSE {})
           \cup (IF "pl" \in parts THEN UNION {plate(k) : k \in els} ELSE {})
=============================================================================
