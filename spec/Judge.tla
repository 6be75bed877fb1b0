-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Acceptance conditions for observed analysis results.  Every operator    *)
(* returns the set of failing clauses <<clause, detail>>; empty means the  *)
(* observation is allowed by the specification.                            *)
(*                                                                         *)
(* o: what was observed for one combination:                               *)
(*   o.D, o.R   node -> 6 displacements / reactions                        *)
(*   o.mem      member -> [f, q, ext, arr, act]                            *)
(*   o.spr      spring -> [f, act]                                         *)
(***************************************************************************)
EXTENDS Frame

Fail(cond, clause, detail) == IF cond THEN {} ELSE {<<clause, detail>>}
UnionSeq(n, F(_)) == UNION {F(k) : k \in 1..n}

FiniteVec(v) == \A k \in DOMAIN v : RIsNum(v[k])
\* every displacement and reaction present and finite
FiniteObs(m, o) ==
  UNION {Fail(n \in DOMAIN o.D /\ n \in DOMAIN o.R /\ FiniteVec(o.D[n]) /\ FiniteVec(o.R[n]), "finite", n) : n \in DOMAIN m.nodes}

Within(x, y, tol) == RIsNum(x) /\ RAbs(x -- y) \preceq tol

----------------------------------------------------------------------------
(* P02: prescribed values and equilibrium at the free degrees of freedom   *)

MaxOr0(v) == IF v = <<>> THEN 0 ELSE RMaxSeq(v)
ResTol(R, i) == ("1e-8" ** R.a[i]) ++ ("1e-11" ** R.m) ++ "1e-60"

JudgeDisplacements(m, cx, o, R) ==
  LET nm(i) == cx.names[((i - 1) \div 6) + 1]
      dd(i) == ((i - 1) % 6) + 1
      one(i) == LET n == nm(i) d == dd(i)
                IN  IF Known(m.nodes[n], d)
                    THEN LET p == Prescribed(m.nodes[n], d)
                         IN  Fail(Within(o.D[n][d], p, "1e-12" ** RAbs(p)), "prescribed", <<n, Dofs[d], RStr(o.D[n][d]), RStr(p)>>)
                    ELSE Fail(RAbs(R.r[i]) \preceq ResTol(R, i), "equilibrium", <<n, Dofs[d], RStr(R.r[i]), RStr(R.a[i])>>)
  IN  UnionSeq(6 * Len(cx.names), one)

----------------------------------------------------------------------------
(* P01: reactions                                                          *)

ReactionResultant(m, o) ==
  LET ns == SetToSeq(DOMAIN m.nodes)
  IN  Eager([k \in 1..Len(ns) |-> LET R == o.R[ns[k]] p == Pos(m.nodes[ns[k]])
                                  IN  VAdd(Force6(SubSeq(R, 1, 3), p), <<0, 0, 0>> \o SubSeq(R, 4, 6))])
AbsSum(vs) == VSumAll(6, [k \in 1..Len(vs) |-> VAbs(vs[k])])

JudgeBalance(m, c, o, noise) ==
  LET rv == ReactionResultant(m, o)  lv == LoadVectors(m, c)
      tot == VAdd(VSumAll(6, rv), VSumAll(6, lv))
      sc == VAdd(AbsSum(rv), AbsSum(lv))
      span == RMaxSeq([k \in 1..Len(SetToSeq(DOMAIN m.nodes)) |-> LET n == m.nodes[SetToSeq(DOMAIN m.nodes)[k]] IN (RAbs(n.X) ++ RAbs(n.Y)) ++ RAbs(n.Z)])
  IN  UnionSeq(6, LAMBDA d : Fail(RAbs(tot[d]) \preceq (("1e-7" ** sc[d]) ++ (("1e-9" ** (noise ** (IF d > 3 THEN 1 ++ span ELSE 1))) ++ "1e-60")),
                                   "balance", <<NDirs[d], RStr(tot[d]), RStr(sc[d])>>))

SpringReaction(node, o, n, d) == RNeg(node.spr[d][1] ** o.D[n][d])

\* frameOnly: the model has no plates or quads, so R (the residual) gives every reaction
JudgeReactions(m, cx, o, R, frameOnly) ==
  LET one(n, d) ==
        LET nd == m.nodes[n]  i == (6 * (cx.idx[n] - 1)) + d  x == o.R[n][d]
        IN  IF ~Known(nd, d) \/ (~nd.sup[d] /\ nd.spr[d] # <<>>)
            THEN IF nd.spr[d] = <<>> THEN Fail(Within(x, 0, 0), "reaction without support", <<n, NDirs[d], RStr(x)>>)
                 ELSE LET s == SpringReaction(nd, o, n, d)
                      IN  Fail(Within(x, s, "1e-9" ** RAbs(s)) \/ (nd.spr[d][2] # None /\ Within(x, 0, 0)),
                               "support spring reaction", <<n, NDirs[d], RStr(x), RStr(s)>>)
            ELSE IF ~nd.sup[d] THEN {}       \* prescribed displacement without a support: see known findings
            ELSE IF ~frameOnly THEN {}
            ELSE LET own == IF nd.spr[d] # <<>> THEN R.r[i] -- (nd.spr[d][1] ** o.D[n][d]) ELSE R.r[i]
                 IN  Fail(Within(x, own, ResTol(R, i)), "support reaction", <<n, NDirs[d], RStr(x), RStr(own)>>)
  IN  UNION {UnionSeq(6, LAMBDA d : one(n, d)) : n \in DOMAIN m.nodes}

----------------------------------------------------------------------------
(* Member results at sections (P05, P06, P07).  Kinds: V (Fy, Fz), M (Mz,  *)
(* My), N, T, d (dy, dz, dx), r (relative deflection)                      *)

\* One evaluated segment: end forces, local end displacements, Macaulay terms and their magnitudes.
\* floor, dfloor: the scale of rounding in forces and displacements that are exactly zero
SegEval(seg, c, F, fmax, dmax) ==
  LET lds == Factored(seg.loads, c)
      aF == F.abs
      cube == (1 ++ seg.p.L) ** ((1 ++ seg.p.L) ** (1 ++ seg.p.L))
  IN  Eager([x0 |-> seg.x0, p |-> seg.p, F |-> F, lds |-> lds, floor |-> ("1e-11" ** fmax) ++ "1e-60",
             dfloor |-> ("1e-11" ** ((dmax ++ (fmax // (seg.p.E ** RMin(seg.p.A, RMin(seg.p.Iy, seg.p.Iz))))) ** cube)) ++ "1e-60",
             xy |-> PrimsXY(F.f, lds), xz |-> PrimsXZ(F.f, lds), ax |-> PrimsX(F.f, lds), to |-> PrimsT(F.f, lds),
             axy |-> PrimsXY(aF, lds), axz |-> PrimsXZ(aF, lds), aax |-> PrimsX(aF, lds), ato |-> PrimsT(aF, lds)])

MaxDisp(m, D) == LET ns == SetToSeq(DOMAIN m.nodes) IN RMaxSeq([k \in 1..Len(ns) |-> RMaxSeq(VAbs(D[ns[k]]))])
MemberEval(m, cx, k, c, D) ==
  LET segs == cx.segs[k]
      dmax == Eager(MaxDisp(m, D))
      Fs == Eager([s \in 1..Len(segs) |-> SegForce(segs[s], c, D)])
      fmax == Eager(RMaxSeq([s \in 1..Len(segs) |-> Fs[s].max]))
  IN  Eager([s \in 1..Len(segs) |-> SegEval(segs[s], c, Fs[s], fmax, dmax)])

PrimsOf(sv, dir) == CASE dir \in {"Fy", "Mz", "dy"} -> sv.xy [] dir \in {"Fz", "My", "dz"} -> sv.xz [] dir \in {"N", "dx"} -> sv.ax [] dir = "T" -> sv.to
AbsPrimsOf(sv, dir) == CASE dir \in {"Fy", "Mz", "dy"} -> sv.axy [] dir \in {"Fz", "My", "dz"} -> sv.axz [] dir \in {"N", "dx"} -> sv.aax [] dir = "T" -> sv.ato
Up(kind) == IF kind = "M" THEN 1 ELSE 0
Sgn(kind, v) == IF kind = "M" THEN RNeg(v) ELSE v

LastSeg(ev) == ev[Len(ev)]
Total(ev) == LastSeg(ev).x0 ++ LastSeg(ev).p.L
\* The segment a position belongs to; positions within rounding of a boundary belong to the right
SegAt(ev, x) == CHOOSE s \in 1..Len(ev) : /\ (s = 1 \/ ev[s].x0 \preceq (x ++ ("1e-12" ** Total(ev))))
                                          /\ (s = Len(ev) \/ ~(ev[s + 1].x0 \preceq (x ++ ("1e-12" ** Total(ev)))))
LocalX(ev, s, x) == RMin(RMax(x -- ev[s].x0, 0), ev[s].p.L)

ForceAt(ev, kind, dir, x) == LET s == SegAt(ev, x) IN Sgn(kind, MacSum(PrimsOf(ev[s], dir), Up(kind), LocalX(ev, s, x), FALSE))
Floor(sv, up) == IF up = 0 THEN sv.floor ELSE sv.floor ** (1 ++ sv.p.L)
ForceTol(ev, kind, dir, x) == LET s == SegAt(ev, x) IN ("1e-8" ** MacAbs(AbsPrimsOf(ev[s], dir), Up(kind), LocalX(ev, s, x))) ++ Floor(ev[s], Up(kind))

\* Positions where the reported value may be either one-sided limit: a concentrated action in the queried
\* plane, an internal node, or a member end under a concentrated action
NearJump(ev, dir, x) ==
  \E s \in 1..Len(ev) :
     \/ s > 1 /\ RAbs(x -- ev[s].x0) \preceq ("1e-9" ** Total(ev))
     \/ \E k \in 3..Len(PrimsOf(ev[s], dir)) : LET t == PrimsOf(ev[s], dir)[k] IN t.n <= 0 /\ RAbs((x -- ev[s].x0) -- t.a) \preceq ("1e-9" ** Total(ev))

JudgeSection(k, ev, q) ==
  LET v == ForceAt(ev, q.k, q.d, q.x)
  IN  IF NearJump(ev, q.d, q.x) THEN {}
      ELSE Fail(Within(q.v, v, ForceTol(ev, q.k, q.d, q.x)), "section", <<k, q.k, q.d, RStr(q.x), RStr(q.v), RStr(v)>>)

JudgeEndForces(k, ev, f) ==
  LET a == ev[1].F  b == LastSeg(ev).F
  IN  UnionSeq(12, LAMBDA d : LET F == IF d <= 6 THEN a ELSE b
                              IN  Fail(Within(f[d], F.f[d], ("1e-8" ** F.abs[d]) ++ ev[1].floor), "end force", <<k, d, RStr(f[d]), RStr(F.f[d])>>))

\* Deflections -------------------------------------------------------------
EIof(sv, dir) == IF dir = "dy" THEN sv.p.E ** sv.p.Iz ELSE sv.p.E ** sv.p.Iy
DeflIn(ev, s, dir, lx) ==
  LET sv == ev[s]
  IN  IF dir = "dx" THEN AxialDeflAt(sv.ax, sv.p.E ** sv.p.A, sv.F.d[1], lx)
      ELSE IF dir = "dy" THEN DeflAt(sv.xy, EIof(sv, dir), sv.p.L, sv.F.d[2], sv.F.d[8], lx)
      ELSE DeflAt(sv.xz, EIof(sv, dir), sv.p.L, sv.F.d[3], sv.F.d[9], lx)
DeflOf(ev, dir, x) == LET s == SegAt(ev, x) IN DeflIn(ev, s, dir, LocalX(ev, s, x))
EndDefl(ev, dir, j) == LET o == CASE dir = "dx" -> 1 [] dir = "dy" -> 2 [] dir = "dz" -> 3
                       IN  IF j THEN LastSeg(ev).F.d[o + 6] ELSE ev[1].F.d[o]
\* magnitude of the terms of a deflection: end displacements and the integrated forces
DeflTol(ev, dir, x) ==
  LET s == SegAt(ev, x)  sv == ev[s]
      d == RAbs(sv.F.d[IF dir = "dx" THEN 1 ELSE IF dir = "dy" THEN 2 ELSE 3]) ++ RAbs(sv.F.d[IF dir = "dx" THEN 7 ELSE IF dir = "dy" THEN 8 ELSE 9])
      rot == RMax(RAbs(sv.F.d[IF dir = "dy" THEN 6 ELSE 5]), RAbs(sv.F.d[IF dir = "dy" THEN 12 ELSE 11])) ** sv.p.L
      bend == IF dir = "dx" THEN MacAbs(sv.aax, 1, sv.p.L) // (sv.p.E ** sv.p.A) ELSE MacAbs(AbsPrimsOf(sv, dir), 3, sv.p.L) // EIof(sv, dir)
  IN  ("1e-8" ** ((d ++ bend) ++ (IF dir = "dx" THEN 0 ELSE rot))) ++ sv.dfloor

JudgeDeflection(k, ev, q) ==
  LET v == DeflOf(ev, q.d, q.x)
      L == Total(ev)
      chord == (EndDefl(ev, q.d, FALSE) ** (1 -- (q.x // L))) ++ (EndDefl(ev, q.d, TRUE) ** (q.x // L))
      w == IF q.k = "r" THEN v -- chord ELSE v
      tol == IF q.k = "r" THEN DeflTol(ev, q.d, q.x) ++ ("1e-8" ** (RAbs(EndDefl(ev, q.d, FALSE)) ++ RAbs(EndDefl(ev, q.d, TRUE)))) ELSE DeflTol(ev, q.d, q.x)
  IN  Fail(Within(q.v, w, tol), "deflection", <<k, q.k, q.d, RStr(q.x), RStr(q.v), RStr(w)>>)

\* Extremes ----------------------------------------------------------------
\* A concentrated action exactly at a member end acts just outside or just inside it: the extreme may be
\* taken with or without it.
EndJumps(ev, q) ==
  LET a == ev[1]  b == LastSeg(ev)
      pa == PrimsOf(a, q.d)
  IN  <<MacSum(SubSeq(pa, 1, 2), Up(q.k), 0, FALSE), MacSum(PrimsOf(b, q.d), Up(q.k), b.p.L, FALSE)>>

\* Values on intervals longer than rounding must be covered; those on degenerate intervals (a load within
\* rounding of a node or of another load) may be.
JudgeExtreme(k, ev, q) ==
  LET core == Eager(Concat([s \in 1..Len(ev) |-> CoreValues(PrimsOf(ev[s], q.d), Up(q.k), ev[s].p.L, "1e-9" ** Total(ev))]))
      all == Eager(EndJumps(ev, q) \o Concat([s \in 1..Len(ev) |-> AllValues(PrimsOf(ev[s], q.d), Up(q.k), ev[s].p.L)]))
      sup(v) == IF q.k = "M" THEN RNeg(InfOf(v)) ELSE SupOf(v)
      inf(v) == IF q.k = "M" THEN RNeg(SupOf(v)) ELSE InfOf(v)
      tol == Eager(RMaxSeq([s \in 1..Len(ev) |-> ("1e-8" ** MacAbs(AbsPrimsOf(ev[s], q.d), Up(q.k), ev[s].p.L)) ++ Floor(ev[s], Up(q.k))]))
      attained(x) == \E i \in 1..Len(all) : Within(x, Sgn(q.k, all[i]), tol)
  IN  Fail(RIsNum(q.mx) /\ (sup(core) -- tol) \preceq q.mx /\ attained(q.mx), "maximum", <<k, q.k, q.d, RStr(q.mx), RStr(sup(core)), RStr(sup(all))>>)
      \cup Fail(RIsNum(q.mn) /\ q.mn \preceq (inf(core) ++ tol) /\ attained(q.mn), "minimum", <<k, q.k, q.d, RStr(q.mn), RStr(inf(core)), RStr(inf(all))>>)

\* Deflection extremes are found by sampling.  With M points per segment the largest sample is at most
\* sag(M) below the largest value, so the reported extreme lies within these distances of the samples here.
SampleN == 25
JudgeDeflExtreme(k, ev, q) ==
  LET tol == RMaxSeq([s \in 1..Len(ev) |-> DeflTol(ev, q.d, ev[s].x0)])
      sag(s, n) == LET sv == ev[s]  h == sv.p.L // n
                   IN  IF q.d = "dx" THEN h ** (MacAbs(sv.ax, 0, sv.p.L) // (sv.p.E ** sv.p.A))
                       ELSE ((h ** h) ** (MacAbs(PrimsOf(sv, q.d), 1, sv.p.L) // EIof(sv, q.d))) // 8
      sags(n) == tol ++ RMaxSeq([s \in 1..Len(ev) |-> sag(s, n)])
      down == Eager(sags(90))  up == Eager(sags(SampleN))
      vs == Eager(Concat([s \in 1..Len(ev) |-> [i \in 1..(SampleN + 1) |-> DeflIn(ev, s, q.d, (ev[s].p.L ** (i - 1)) // SampleN)]]))
      hi == RMaxSeq(vs)  lo == RNeg(RMaxSeq(VScale(-1, vs)))
  IN  Fail(RIsNum(q.mx) /\ (hi -- down) \preceq q.mx /\ q.mx \preceq (hi ++ up), "maximum", <<k, q.k, q.d, RStr(q.mx), RStr(hi)>>)
      \cup Fail(RIsNum(q.mn) /\ (lo -- up) \preceq q.mn /\ q.mn \preceq (lo ++ down), "minimum", <<k, q.k, q.d, RStr(q.mn), RStr(lo)>>)

\* Arrays: positions from end to end, values equal to the point queries at the same positions
JudgeArray(k, ev, q) ==
  LET n == Len(q.x)  L == Total(ev)
      tol(i) == IF q.k \in {"d", "r"} THEN DeflTol(ev, q.d, q.x[i]) ++ DeflTol(ev, q.d, L) ++ DeflTol(ev, q.d, 0) ELSE ForceTol(ev, q.k, q.d, q.x[i])
  IN  Fail(n >= 2 /\ Within(q.x[1], 0, "1e-9" ** L) /\ Within(q.x[n], L, "1e-9" ** L) /\ Len(q.v) = n, "array positions", <<k, q.k, q.d>>)
      \cup UnionSeq(n, LAMBDA i : Fail(RIsNum(q.p[i]) /\ Within(q.v[i], q.p[i], tol(i)), "array", <<k, q.k, q.d, RStr(q.x[i]), RStr(q.v[i]), RStr(q.p[i])>>))

\* Which members a section judgement applies to
ShearOrAxialRelease(mem) == \E d \in {1, 2, 3, 7, 8, 9} : mem.rel[d]

JudgeMembers(m, cx, c, o, which) ==
  UNION { LET om == o.mem[k]
              ev == MemberEval(m, cx, k, c, o.D)
          IN  (IF "P05" \in which
               THEN JudgeEndForces(k, ev, om.f)
                    \cup UnionSeq(Len(om.q), LAMBDA i : IF om.q[i].k \in {"V", "M", "N", "T"} THEN JudgeSection(k, ev, om.q[i]) ELSE {})
               ELSE {})
              \cup (IF "P07" \in which /\ ~ShearOrAxialRelease(m.members[k])
                    THEN UnionSeq(Len(om.q), LAMBDA i : IF om.q[i].k \in {"d", "r"} THEN JudgeDeflection(k, ev, om.q[i]) ELSE {})
                    ELSE {})
              \cup (IF "P06" \in which
                    THEN UnionSeq(Len(om.ext), LAMBDA i : IF om.ext[i].k = "d"
                                                          THEN IF ShearOrAxialRelease(m.members[k]) THEN {} ELSE JudgeDeflExtreme(k, ev, om.ext[i])
                                                          ELSE JudgeExtreme(k, ev, om.ext[i]))
                         \cup UnionSeq(Len(om.arr), LAMBDA i : JudgeArray(k, ev, om.arr[i]))
                    ELSE {})
          : k \in DOMAIN o.mem }
=============================================================================
