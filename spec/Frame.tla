-------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* Statics of a whole frame model: local axes, subdivision of members at   *)
(* nodes on their line, load combinations, assembly, and the certificates  *)
(* (equilibrium residuals with the magnitude of the terms they are made    *)
(* of) against which reported results are judged.                          *)
(***************************************************************************)
EXTENDS Model, Beam, SequencesExt

Cross(a, b) == <<(a[2] ** b[3]) -- (a[3] ** b[2]), (a[3] ** b[1]) -- (a[1] ** b[3]), (a[1] ** b[2]) -- (a[2] ** b[1])>>
Norm(v) == RSqrt(RDot(v, v))
Unit(v) == VScale(1 // Norm(v), v)
Pos(n) == <<n.X, n.Y, n.Z>>

\* Local axes (rows x, y, z): a vertical member has z = global Z; otherwise z is horizontal and
\* y points upward; an auxiliary node puts the local z axis in the plane of the member and the
\* auxiliary node, on the node's side
LocalAxes(pi, pj, aux) ==
  LET x == Unit(VSub(pj, pi))
  IN  IF ~IsNull(aux)
      THEN LET y == Unit(Cross(VSub(aux, pi), x)) IN Eager(<<x, y, Unit(Cross(x, y))>>)
      ELSE IF REq(pi[1], pj[1]) /\ REq(pi[3], pj[3])
      THEN Eager(<<x, Cross(<<0, 0, 1>>, x), <<0, 0, 1>>>>)
      ELSE LET z == Unit(Cross(x, <<0, 1, 0>>)) IN Eager(<<x, Unit(Cross(z, x)), z>>)

\* The 12x12 rotation made of four copies of the axes
Rot12(ax) == [r \in 1..12 |-> [c \in 1..12 |-> IF (r - 1) \div 3 = (c - 1) \div 3 THEN ax[((r - 1) % 3) + 1][((c - 1) % 3) + 1] ELSE 0]]

----------------------------------------------------------------------------
(* Subdivision *)

\* Distance of p from the line through a with unit direction x, and its coordinate along it
Along(p, a, x) == RDot(VSub(p, a), x)
OffLine(p, a, x) == LET v == VSub(p, a)  t == RDot(v, x) IN Norm(VSub(v, VScale(t, x)))

OnLineTol == "1e-6"
\* Names of the nodes of m from the i- to the j-end of the member, in order
Chain(m, mem) ==
  LET a == Pos(m.nodes[mem.i])  b == Pos(m.nodes[mem.j])
      x == Eager(Unit(VSub(b, a)))  L == Norm(VSub(b, a))
      on == Eager([n \in DOMAIN m.nodes |-> [t |-> Along(Pos(m.nodes[n]), a, x), off |-> OffLine(Pos(m.nodes[n]), a, x)]])
      S == {n \in DOMAIN m.nodes \ {mem.i, mem.j} : /\ on[n].off \preceq (L ** OnLineTol)
                                                    /\ (L ** OnLineTol) \prec on[n].t /\ on[n].t \prec (L ** (1 -- OnLineTol))}
      RECURSIVE Order(_)
      Order(T) == IF T = {} THEN <<>> ELSE LET n == CHOOSE q \in T : \A r \in T : on[q].t \preceq on[r].t IN <<n>> \o Order(T \ {n})
  IN  <<mem.i>> \o Order(S) \o <<mem.j>>

\* A member load in local directions, as a sequence of local loads with their case
LocalLoads(mem, ax, L) ==
  LET comp(dir, P, mk(_, _)) ==
        IF dir \in Rng(LDirs) THEN <<mk(IndexOf(LDirs, dir), P)>>
        ELSE LET g == IndexOf(NDirs, dir)
                 off == IF g > 3 THEN 3 ELSE 0
             IN  [a \in 1..3 |-> mk(a + off, P ** ax[a][g - off])]
      \* both intensities of a distributed load
      comp2(dir, w1, w2, mk(_, _, _)) ==
        IF dir \in Rng(LDirs) THEN <<mk(IndexOf(LDirs, dir), w1, w2)>>
        ELSE LET g == IndexOf(NDirs, dir) IN [a \in 1..3 |-> mk(a, w1 ** ax[a][g], w2 ** ax[a][g])]
      pt(ld) == LET mk(d, P) == [k |-> "pt", d |-> d, P |-> P, x |-> RMin(ld[3], L), case |-> ld[4]] IN comp(ld[1], ld[2], mk)
      dist(ld) == LET mk(d, w1, w2) == [k |-> "dist", d |-> d, w1 |-> w1, w2 |-> w2, x1 |-> ld[4], x2 |-> ld[5], case |-> ld[6]]
                  IN comp2(ld[1], ld[2], ld[3], mk)
  IN  Concat([k \in 1..Len(mem.pt) |-> pt(mem.pt[k])]) \o Concat([k \in 1..Len(mem.dist) |-> dist(mem.dist[k])])

\* The part of a local load on the segment from a to b (last: b is the member's end)
ClipLoad(ld, a, b, last) ==
  IF ld.k = "pt"
  THEN IF (a \preceq ld.x /\ ld.x \prec b) \/ (last /\ a \preceq ld.x) THEN <<[ld EXCEPT !.x = RMin(@, b) -- a]>> ELSE <<>>
  ELSE LET lo == RMax(ld.x1, a)  hi == RMin(ld.x2, b)
       IN  IF lo \prec hi THEN <<[ld EXCEPT !.w1 = Intensity(ld, lo), !.w2 = Intensity(ld, hi), !.x1 = lo -- a, !.x2 = hi -- a]>> ELSE <<>>

\* Segments of member name: the prismatic pieces between consecutive nodes of its chain
Segments(m, name) ==
  LET mem == m.members[name]
      mat == m.mats[mem.mat]
      ch == Chain(m, mem)
      a == Pos(m.nodes[mem.i])  b == Pos(m.nodes[mem.j])
      ax == LocalAxes(a, b, IF mem.aux = None THEN None ELSE Pos(m.aux[mem.aux]))
      L == Norm(VSub(b, a))
      T == Eager(Rot12(ax))
      lds == Eager(LocalLoads(mem, ax, L))
      n == Len(ch) - 1
      t == Eager([k \in 1..Len(ch) |-> IF k = Len(ch) THEN L ELSE Along(Pos(m.nodes[ch[k]]), a, ax[1])])
  IN  [s \in 1..n |->
        LET p == [E |-> mat.E, G |-> mat.G, A |-> mem.A, Iy |-> mem.Iy, Iz |-> mem.Iz, J |-> mem.J, L |-> t[s + 1] -- t[s]]
            rel == [d \in 1..12 |-> IF d <= 6 THEN s = 1 /\ mem.rel[d] ELSE s = n /\ mem.rel[d]]
            K == Eager(KElastic(p))
        IN  [ni |-> ch[s], nj |-> ch[s + 1], x0 |-> t[s], p |-> p, rel |-> rel, T |-> T, ax |-> ax, K |-> K,
             kc |-> IF ReleasesOK(K, rel) THEN CondenseK(K, rel) ELSE K,
             loads |-> Concat([q \in 1..Len(lds) |-> ClipLoad(lds[q], t[s], t[s + 1], s = n)])]]

\* Everything about a model that does not depend on the combination
Ctx(m) == LET names == SetToSeq(DOMAIN m.nodes)
          IN  Eager([names |-> names,
                     idx |-> [n \in DOMAIN m.nodes |-> IndexOf(names, n)],
                     segs |-> [k \in DOMAIN m.members |-> Segments(m, k)]])

NodeDofs(cx, n) == [d \in 1..6 |-> (6 * (cx.idx[n] - 1)) + d]
ElemDofs(cx, ni, nj) == NodeDofs(cx, ni) \o NodeDofs(cx, nj)

\* The loads of a segment in a combination, factored
Factored(loads, c) ==
  LET one(ld) == LET f == Factor(c, ld.case)
                 IN  IF REq(f, 0) THEN <<>>
                     ELSE IF ld.k = "pt" THEN <<[ld EXCEPT !.P = f ** @]>> ELSE <<[ld EXCEPT !.w1 = f ** @, !.w2 = f ** @]>>
  IN  Eager(Concat([k \in 1..Len(loads) |-> one(loads[k])]))

----------------------------------------------------------------------------
(* Forces of single elements for given global nodal displacements D (a     *)
(* function from node names to 6 values).  Each comes with "abs": the sum  *)
(* of the magnitudes of the terms it is made of, the scale of rounding.    *)

SegFE(seg, c) == LET lds == Factored(seg.loads, c) IN CondenseF(seg.K, FixedEnd(lds, seg.p.L), seg.rel)

SegForce(seg, c, D) ==
  LET dg == D[seg.ni] \o D[seg.nj]
      d  == MVec(seg.T, dg)
      da == MAbsVec(seg.T, dg)
      fe == SegFE(seg, c)
      \* the largest term in the forces before the releases are accounted for: the scale of rounding in zeros
      big == RMax(RMaxSeq(MAbsVec(seg.K, da)), RMaxSeq(VAbs(FixedEnd(Factored(seg.loads, c), seg.p.L))))
  IN  Eager([f |-> VAdd(MVec(seg.kc, d), fe), abs |-> VAdd(MAbsVec(seg.kc, da), VAbs(fe)), fe |-> fe, d |-> d, max |-> big])

ToGlobal(seg, f) == MTVec(seg.T, f)
ToGlobalAbs(seg, fa) == MAbsVec(MT(seg.T), fa)

SpringAxis(m, s) == Unit(VSub(Pos(m.nodes[s.j]), Pos(m.nodes[s.i])))
\* Elongation of a two-node spring and the magnitude of its terms
SpringElong(m, s, D) == LET x == SpringAxis(m, s) IN RDot(x, SubSeq(D[s.j], 1, 3)) -- RDot(x, SubSeq(D[s.i], 1, 3))
SpringAbs(m, s, D) == LET x == VAbs(SpringAxis(m, s)) IN RDot(x, VAbs(SubSeq(D[s.j], 1, 3))) ++ RDot(x, VAbs(SubSeq(D[s.i], 1, 3)))

----------------------------------------------------------------------------
(* Which one-way parts act: act = [mem, spr: name -> BOOLEAN, sup: node -> *)
(* 6 BOOLEANs]                                                             *)

AllActive(m) == [mem |-> [k \in DOMAIN m.members |-> TRUE], spr |-> [k \in DOMAIN m.springs |-> TRUE],
                 sup |-> [n \in DOMAIN m.nodes |-> [d \in 1..6 |-> m.nodes[n].spr[d] # <<>>]]]

\* Nodal load vector of a combination at a node
NodalLoad(node, c) ==
  LET P(d) == RSum([k \in 1..Len(node.loads) |-> IF IndexOf(NDirs, node.loads[k][1]) = d THEN Factor(c, node.loads[k][3]) ** node.loads[k][2] ELSE 0])
  IN  [d \in 1..6 |-> P(d)]

Known(node, d) == node.sup[d] \/ ~IsNull(node.disp[d])
Prescribed(node, d) == IF IsNull(node.disp[d]) THEN 0 ELSE node.disp[d]

\* Sum over all elements and active support springs of the force they need at each degree of
\* freedom, minus the applied load there: zero at every free degree of freedom; the support
\* reaction (without the support spring) at the others.
\* geo: 12x12 extra local stiffness per member segment (P-Delta) or <<>>
Residual(m, cx, c, D, act, geo) ==
  LET N == 6 * Len(cx.names)
      seg(k, s) == LET g == cx.segs[k][s]
                       F == SegForce(g, c, D)
                       fl == IF ~act.mem[k] THEN F.fe
                             ELSE IF geo = <<>> THEN F.f ELSE VAdd(F.f, MVec(geo[k][s], F.d))
                       fa == IF ~act.mem[k] THEN VAbs(F.fe)
                             ELSE IF geo = <<>> THEN F.abs ELSE VAdd(F.abs, MAbsVec(geo[k][s], F.d))
                       ds == ElemDofs(cx, g.ni, g.nj)
                   IN  [d |-> ds, f |-> ToGlobal(g, fl), a |-> ToGlobalAbs(g, fa), max |-> F.max]
      ms == SetToSeq(DOMAIN m.members)
      sp == SetToSeq({k \in DOMAIN m.springs : act.spr[k]})
      segParts == Eager(Concat([q \in 1..Len(ms) |-> [s \in 1..Len(cx.segs[ms[q]]) |-> seg(ms[q], s)]]))
      sprPart(s) == LET x == SpringAxis(m, s)
                        F == s.ks ** SpringElong(m, s, D)
                        Fa == RAbs(s.ks) ** SpringAbs(m, s, D)
                    IN  [d |-> SubSeq(NodeDofs(cx, s.i), 1, 3) \o SubSeq(NodeDofs(cx, s.j), 1, 3),
                         f |-> VScale(RNeg(F), x) \o VScale(F, x), a |-> VScale(Fa, VAbs(x)) \o VScale(Fa, VAbs(x))]
      nodePart(n) == LET nd == m.nodes[n]
                         P == NodalLoad(nd, c)
                         S == [d \in 1..6 |-> IF nd.spr[d] # <<>> /\ act.sup[n][d] THEN nd.spr[d][1] ** D[n][d] ELSE 0]
                     IN  [d |-> NodeDofs(cx, n), f |-> VSub(S, P), a |-> VAdd(VAbs(S), VAbs(P))]
      parts == Eager(segParts \o [q \in 1..Len(sp) |-> sprPart(m.springs[sp[q]])] \o [q \in 1..Len(cx.names) |-> nodePart(cx.names[q])])
  IN  Eager([r |-> VAssemble(N, [q \in 1..Len(parts) |-> <<parts[q].d, parts[q].f>>]),
             a |-> VAssemble(N, [q \in 1..Len(parts) |-> <<parts[q].d, parts[q].a>>]),
             \* the largest term anywhere, before releases are accounted for: the scale of rounding in zeros
             m |-> RMaxSeq(<<0>> \o [q \in 1..Len(segParts) |-> segParts[q].max] \o [q \in 1..Len(parts) |-> RMaxSeq(parts[q].a)])])

----------------------------------------------------------------------------
(* The exact solution of the first-order problem *)

SpringK(m, s) == LET x == SpringAxis(m, s)
                     b(sg) == [i \in 1..3 |-> [j \in 1..3 |-> sg ** (s.ks ** (x[i] ** x[j]))]]
                 IN  [i \in 1..6 |-> [j \in 1..6 |-> IF (i <= 3) = (j <= 3) THEN b(1)[((i - 1) % 3) + 1][((j - 1) % 3) + 1] ELSE b(-1)[((i - 1) % 3) + 1][((j - 1) % 3) + 1]]]
SegKGlobal(seg, k) == MMul(MT(seg.T), MMul(k, seg.T))

GlobalK(m, cx, act, geo) ==
  LET N == 6 * Len(cx.names)
      ms == SetToSeq({k \in DOMAIN m.members : act.mem[k]})
      sp == SetToSeq({k \in DOMAIN m.springs : act.spr[k]})
      segPart(k, s) == LET g == cx.segs[k][s] IN <<ElemDofs(cx, g.ni, g.nj), SegKGlobal(g, IF geo = <<>> THEN g.kc ELSE MAdd(g.kc, geo[k][s]))>>
      sprPart(s) == <<SubSeq(NodeDofs(cx, s.i), 1, 3) \o SubSeq(NodeDofs(cx, s.j), 1, 3), SpringK(m, s)>>
      supPart(n) == LET ds == SortedSeq({d \in 1..6 : m.nodes[n].spr[d] # <<>> /\ act.sup[n][d]})
                    IN  <<[q \in 1..Len(ds) |-> (6 * (cx.idx[n] - 1)) + ds[q]],
                          [q \in 1..Len(ds) |-> [r \in 1..Len(ds) |-> IF q = r THEN m.nodes[n].spr[ds[q]][1] ELSE 0]]>>
  IN  Eager(MAssemble(N, Concat([q \in 1..Len(ms) |-> [s \in 1..Len(cx.segs[ms[q]]) |-> segPart(ms[q], s)]])
                         \o [q \in 1..Len(sp) |-> sprPart(m.springs[sp[q]])]
                         \o [q \in 1..Len(cx.names) |-> supPart(cx.names[q])]))

FreeDofs(m, cx) == LET f == {i \in 1..(6 * Len(cx.names)) : ~Known(m.nodes[cx.names[((i - 1) \div 6) + 1]], ((i - 1) % 6) + 1)} IN SortedSeq(f)

Zeros(m) == [n \in DOMAIN m.nodes |-> [d \in 1..6 |-> IF Known(m.nodes[n], d) THEN Prescribed(m.nodes[n], d) ELSE 0]]

\* [ok, D]: D the displacements of the (unique) equilibrium state; ok = FALSE when there is none
ExactSolve(m, cx, c, act, geo) ==
  LET K == GlobalK(m, cx, act, geo)
      fr == FreeDofs(m, cx)
      D0 == Zeros(m)
      R0 == Residual(m, cx, c, D0, act, geo)     \* forces with the free displacements at zero
      S == RSolve(MSub(K, fr, fr), VScale(-1, VSel(R0.r, fr)))
  IN  IF fr = <<>> THEN [ok |-> TRUE, D |-> D0]
      ELSE IF ~S.ok THEN [ok |-> FALSE, D |-> D0]
      ELSE LET full == VAssemble(6 * Len(cx.names), << <<fr, S.x>> >>)
           IN  [ok |-> TRUE, D |-> Eager([n \in DOMAIN m.nodes |-> VAdd(D0[n], VSel(full, NodeDofs(cx, n)))])]

\* The supported structure can resist any load
Stable(m, cx, act) == LET fr == FreeDofs(m, cx) IN fr = <<>> \/ RRank(MSub(GlobalK(m, cx, act, <<>>), fr, fr)) = Len(fr)

\* A single direction at a single node without any stiffness (what PyNite's stability check names)
NodalInstability(m, cx, act) ==
  LET K == GlobalK(m, cx, act, <<>>)
  IN  \E i \in Rng(FreeDofs(m, cx)) : REq(K[i][i], 0)

----------------------------------------------------------------------------
(* Resultant of all applied loads of a combination about the origin        *)

Force6(F, p) == F \o Cross(p, F)
\* One local load of member geometry (a: start point, ax: axes)
LoadResultant(ld, a, ax) ==
  LET dirv == ax[IF ld.d > 3 THEN ld.d - 3 ELSE ld.d]
      at(x) == VAdd(a, VScale(x, ax[1]))
  IN  IF ld.k = "pt"
      THEN IF ld.d > 3 THEN <<0, 0, 0>> \o VScale(ld.P, dirv) ELSE Force6(VScale(ld.P, dirv), at(ld.x))
      ELSE LET h == ld.x2 -- ld.x1
               W == (h ** (ld.w1 ++ ld.w2)) // 2
               S == (ld.x1 ** W) ++ (((h ** h) ** (ld.w1 ++ (2 ** ld.w2))) // 6)   \* first moment about the start
               mom == VAdd(Cross(a, VScale(W, dirv)), Cross(ax[1], VScale(S, dirv)))
           IN  VScale(W, dirv) \o mom

SurfaceResultant(m, el, c) ==
  LET P == RSum([k \in 1..Len(el.loads) |-> Factor(c, el.loads[k][2]) ** el.loads[k][1]])
      p(n) == Pos(m.nodes[n])
      tri(a, b, q) == LET nA == VScale("1/2", Cross(VSub(b, a), VSub(q, a)))
                          g == VScale("1/3", VAdd(a, VAdd(b, q)))
                      IN  Force6(VScale(P, nA), g)
  IN  VAdd(tri(p(el.i), p(el.j), p(el.m)), tri(p(el.i), p(el.m), p(el.n)))

VSumAll(n, vs) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN VZero(n) ELSE VAdd(S(k - 1), vs[k]) IN S(Len(vs))

LoadVectors(m, c) ==
  LET ns == SetToSeq(DOMAIN m.nodes)  ms == SetToSeq(DOMAIN m.members)
      ps == SetToSeq(DOMAIN m.plates) qs == SetToSeq(DOMAIN m.quads)
      nod(n) == LET P == NodalLoad(m.nodes[n], c) p == Pos(m.nodes[n])
                IN  VAdd(Force6(SubSeq(P, 1, 3), p), <<0, 0, 0>> \o SubSeq(P, 4, 6))
      memb(k) == LET mem == m.members[k]  a == Pos(m.nodes[mem.i])  b == Pos(m.nodes[mem.j])
                     ax == LocalAxes(a, b, IF mem.aux = None THEN None ELSE Pos(m.aux[mem.aux]))
                     lds == Factored(LocalLoads(mem, ax, Norm(VSub(b, a))), c)
                 IN  [q \in 1..Len(lds) |-> LoadResultant(lds[q], a, ax)]
  IN  Eager([q \in 1..Len(ns) |-> nod(ns[q])] \o Concat([q \in 1..Len(ms) |-> memb(ms[q])])
            \o [q \in 1..Len(ps) |-> SurfaceResultant(m, m.plates[ps[q]], c)] \o [q \in 1..Len(qs) |-> SurfaceResultant(m, m.quads[qs[q]], c)])
=============================================================================
