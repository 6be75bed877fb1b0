------------------------------- MODULE Plates -------------------------------
(***************************************************************************)
(* Plates (rectangles) and quads (convex planar quadrilaterals).           *)
(*                                                                         *)
(* An element has local axes x (from i to j), y, z (normal) and reports    *)
(* 24 corner forces F (global) and, at a point, bending moments M, shears  *)
(* Q and membrane stresses S in local axes.  The conditions below do not   *)
(* depend on how an element is formulated, except for the degrees of       *)
(* freedom it has and the fields that it can represent:                    *)
(*                                                                         *)
(*   Equilibrium   corner forces balance the pressure                      *)
(*   Drilling      moments about the normal come from a weak spring only   *)
(*   Field         under a field it can represent it reports that field's  *)
(*                 stresses, and (in a patch) reproduces the field inside  *)
(*   Work          the work of its corner forces is the work of its        *)
(*                 stresses                                                *)
(*   Interpolation a plate's moments and shears belong to the one          *)
(*                 polynomial of its twelve terms through its corner       *)
(*                 displacements; membrane stresses to the bilinear one    *)
(*                                                                         *)
(* The sign of moments and shears: a quad reports M = -D (w,xx + nu w,yy), *)
(* and a plate the opposite.                                               *)
(***************************************************************************)
EXTENDS Judge

Corners(el) == <<el.i, el.j, el.m, el.n>>
ElemOf(m, k) == IF k \in DOMAIN m.plates THEN m.plates[k] ELSE m.quads[k]
IsPlate(m, k) == k \in DOMAIN m.plates
PressureOf(el, c) == RSum([q \in 1..Len(el.loads) |-> Factor(c, el.loads[q][2]) ** el.loads[q][1]])

\* Geometry of an element: axes, corners in local coordinates, shortest side, longest diagonal, area, first moments of area
Geom(m, k) ==
  LET el == ElemOf(m, k)
      P == Eager([a \in 1..4 |-> Pos(m.nodes[Corners(el)[a]])])
      x == Eager(Unit(VSub(P[2], P[1])))
      z == Eager(Unit(Cross(x, VSub(P[4], P[1]))))
      y == Eager(Cross(z, x))
      p == Eager([a \in 1..4 |-> LET v == VSub(P[a], P[1]) IN <<RDot(v, x), RDot(v, y)>>])
      side(a) == Norm(VSub(P[(a % 4) + 1], P[a]))
      \* twice the signed area of the triangle 1, a, a+1
      tri(a) == (p[a][1] ** p[a + 1][2]) -- (p[a + 1][1] ** p[a][2])
      A == (tri(2) ++ tri(3)) // 2
      mom(q) == ((tri(2) ** (p[2][q] ++ p[3][q])) ++ (tri(3) ** (p[3][q] ++ p[4][q]))) // 6
  IN  Eager([ax |-> <<x, y, z>>, p |-> p, h |-> RNeg(RMaxSeq([a \in 1..4 |-> RNeg(side(a))])),
             l |-> RMax(Norm(VSub(P[3], P[1])), Norm(VSub(P[4], P[2]))), A |-> A, Ax |-> mom(1), Ay |-> mom(2), P |-> P])

Rot6(ax, v) == MVec(ax, SubSeq(v, 1, 3)) \o MVec(ax, SubSeq(v, 4, 6))
LocalDisp(g, el, D) == Eager([a \in 1..4 |-> Rot6(g.ax, D[Corners(el)[a]])])
LocalForces(g, F) == Eager([a \in 1..4 |-> Rot6(g.ax, SubSeq(F, (6 * a) - 5, 6 * a))])

Dplate(el) == ((el.E ** el.t) ** (el.t ** el.t)) // (12 ** (1 -- (el.nu ** el.nu)))
\* Sizes of the terms results are made of: membrane stress, moments, shears; in-plane and normal corner forces
Scales(g, el, d) ==
  LET mx(q) == RMaxSeq([a \in 1..4 |-> RAbs(d[a][q])])
      u == RMax(mx(1), mx(2))  w == mx(3)  th == RMax(mx(4), mx(5))
      ar == g.l // g.h
      kk == RMax(1, RMax(el.kx, el.ky))
      S == ar ** ((kk ** (el.E ** u)) // g.h)
      M == (ar ** Dplate(el)) ** ((th // g.h) ++ (w // (g.h ** g.h)))
      \* rounding in in-plane displacements disturbs the normal ones the more the thinner the element is
      all == RMax(u, w) ** (1 ++ ((g.h ** g.h) // (el.t ** el.t)))
  IN  Eager([S |-> S ++ ("1e-6" ** (ar ** ((kk ** (el.E ** w)) // g.h))), M |-> M ++ ("1e-5" ** ((ar ** Dplate(el)) ** (all // (g.h ** g.h)))),
             Q |-> (M // g.h) ++ ("1e-5" ** ((ar ** Dplate(el)) ** (all // ((g.h ** g.h) ** g.h)))),
             Fm |-> (el.t ** g.l) ** (S ++ ("1e-6" ** (ar ** ((kk ** (el.E ** w)) // g.h)))),
             Fb |-> ((M // g.h) ** g.l) ++ ("1e-6" ** ((el.t ** g.l) ** S)),
             \* work in the plane and in bending
             Wm |-> ((el.t ** g.l) ** S) ** u, Wb |-> ((M // g.h) ** g.l) ** (w ++ (th ** g.l)),
             floor |-> ((el.t ** g.l) ** (ar ** ((kk ** (el.E ** (RMax(u, w) ** RMax(u, w)))) // g.h)))])

\* The scale of rounding in an element's corner forces, for sums over elements
ForceScale(m, k, D) ==
  LET el == ElemOf(m, k)  g == Geom(m, k)  s == Scales(g, el, LocalDisp(g, el, D))
  IN  Eager((s.Fm ++ s.Fb) ** (1 ++ g.l))

----------------------------------------------------------------------------
JudgeEquilibrium(m, c, k, F, D) ==
  LET el == ElemOf(m, k)  g == Geom(m, k)
      d == LocalDisp(g, el, D)  f == LocalForces(g, F)  s == Scales(g, el, d)
      p == PressureOf(el, c)
      fs(q) == RSum([a \in 1..4 |-> f[a][q]])
      fa(q) == RSum([a \in 1..4 |-> RAbs(f[a][q])])
      ms(q, w) == RSum([a \in 1..4 |-> g.p[a][w] ** f[a][q]])
      load == RAbs(p) ** g.A
      cross == "1e-13" ** ((load ++ (fa(3) ++ (fa(1) ++ fa(2)))) ++ (((fa(4) ++ fa(5)) ++ fa(6)) // g.l))
      tm == (("1e-9" ** (fa(1) ++ fa(2))) ++ ("1e-9" ** s.Fm)) ++ cross
      tb == ("1e-9" ** ((fa(3) ++ load) ++ ((fa(4) ++ fa(5)) // g.l))) ++ (("1e-9" ** s.Fb) ++ cross)
  IN  Fail(Len(F) = 24 /\ FiniteVec(F), "finite corner forces", k)
      \cup IF ~(Len(F) = 24 /\ FiniteVec(F)) THEN {} ELSE
           Fail(RAbs(fs(1)) \preceq tm /\ RAbs(fs(2)) \preceq tm, "in-plane corner forces balance", <<k, RStr(fs(1)), RStr(fs(2)), RStr(tm)>>)
           \cup Fail(RAbs(ms(2, 1) -- ms(1, 2)) \preceq (g.l ** tm), "in-plane corner moments balance", <<k, RStr(ms(2, 1) -- ms(1, 2)), RStr(g.l ** tm)>>)
           \cup Fail(RAbs(fs(3) ++ (p ** g.A)) \preceq tb, "normal corner forces balance the pressure", <<k, RStr(fs(3)), RStr(p ** g.A), RStr(tb)>>)
           \cup Fail(RAbs((fs(4) ++ ms(3, 2)) ++ (p ** g.Ay)) \preceq (g.l ** tb), "moments about x balance", <<k, RStr(fs(4) ++ ms(3, 2)), RStr(p ** g.Ay), RStr(g.l ** tb)>>)
           \cup Fail(RAbs((fs(5) -- ms(3, 1)) -- (p ** g.Ax)) \preceq (g.l ** tb), "moments about y balance", <<k, RStr(fs(5) -- ms(3, 1)), RStr(p ** g.Ax), RStr(g.l ** tb)>>)

\* One weak spring stiffness at all corners
JudgeDrilling(m, k, F, D) ==
  LET el == ElemOf(m, k)  g == Geom(m, k)
      d == LocalDisp(g, el, D)  f == LocalForces(g, F)  s == Scales(g, el, d)
      big == RMaxSeq([a \in 1..4 |-> RAbs(d[a][6])])
      b == CHOOSE a \in 1..4 : REq(RAbs(d[a][6]), big)
      ks == f[b][6] // d[b][6]
      cap == Dplate(el) // 20
      tol == (("1e-9" ** (cap ** big)) ++ ("1e-60" ** 1)) ++ ("1e-13" ** RSum([a \in 1..4 |-> ((RAbs(f[a][4]) ++ RAbs(f[a][5])) ++ (g.l ** s.Fb))]))
  IN  IF REq(big, 0) THEN UnionSeq(4, LAMBDA a : Fail(RAbs(f[a][6]) \preceq tol, "drilling moment", <<k, a, RStr(f[a][6])>>))
      ELSE Fail(RNeg(tol) \preceq (ks ** big) /\ (ks ** big) \preceq ((cap ** big) ++ tol), "drilling stiffness", <<k, RStr(ks), RStr(cap)>>)
           \cup UnionSeq(4, LAMBDA a : Fail(RAbs(f[a][6] -- (ks ** d[a][6])) \preceq (3 ** tol), "drilling moment", <<k, a, RStr(f[a][6]), RStr(ks ** d[a][6]), RStr(tol)>>))

----------------------------------------------------------------------------
(* Fields: displacements in a plane with origin o and unit vectors ex, ey: *)
(*   u = u1 + u2 x + u3 y,  v likewise,                                    *)
(*   w = w1 + w2 x + w3 y + w4 x^2/2 + w5 x y + w6 y^2/2 + w7 x^3/6        *)
(*       + w8 y^3/6                                                        *)
(* rotations follow from w and (about the normal) rz.  A cubic field       *)
(* causes constant shears; elements that deform in shear (quads) need the  *)
(* corresponding slopes in addition.                                       *)

FieldW(fd, x, y) == ((fd.w[1] ++ (fd.w[2] ** x)) ++ (fd.w[3] ** y)) ++ ((((fd.w[4] ** (x ** x)) // 2) ++ (fd.w[5] ** (x ** y))) ++ (((fd.w[6] ** (y ** y)) // 2)
                    ++ (((fd.w[7] ** (x ** (x ** x))) // 6) ++ ((fd.w[8] ** (y ** (y ** y))) // 6))))
FieldWx(fd, x, y) == (fd.w[2] ++ (fd.w[4] ** x)) ++ ((fd.w[5] ** y) ++ ((fd.w[7] ** (x ** x)) // 2))
FieldWy(fd, x, y) == (fd.w[3] ++ (fd.w[5] ** x)) ++ ((fd.w[6] ** y) ++ ((fd.w[8] ** (y ** y)) // 2))
FieldKxx(fd, x, y) == fd.w[4] ++ (fd.w[7] ** x)
FieldKyy(fd, x, y) == fd.w[6] ++ (fd.w[8] ** y)
FieldKxy(fd, x, y) == fd.w[5]
Normal(fd) == Cross(fd.ex, fd.ey)
FieldXY(fd, P) == LET v == VSub(P, fd.o) IN <<RDot(v, fd.ex), RDot(v, fd.ey)>>
\* Slopes due to shear (quads): -D w,xxx / (5/6 G t)
ShearSlope(el, c3) == RNeg((Dplate(el) ** c3) // (("5/6" ** el.t) ** (el.E // (2 ** (1 ++ el.nu)))))

FieldAt(fd, P, gam) ==
  LET q == FieldXY(fd, P)  x == q[1]  y == q[2]
      lin(a) == (a[1] ++ (a[2] ** x)) ++ (a[3] ** y)
      tr == VAdd(VAdd(VScale(lin(fd.u), fd.ex), VScale(lin(fd.v), fd.ey)), VScale((FieldW(fd, x, y) ++ (gam[1] ** x)) ++ (gam[2] ** y), Normal(fd)))
      ro == VAdd(VAdd(VScale(FieldWy(fd, x, y), fd.ex), VScale(RNeg(FieldWx(fd, x, y)), fd.ey)), VScale(fd.rz, Normal(fd)))
  IN  tr \o ro

\* Field quantities in the local axes of an element: cosines of its axes in the plane
InAxes(g, fd, txx, txy, tyy) ==
  LET a(q) == <<RDot(g.ax[q], fd.ex), RDot(g.ax[q], fd.ey)>>
      b(q, r) == ((txx ** (a(q)[1] ** a(r)[1])) ++ (txy ** ((a(q)[1] ** a(r)[2]) ++ (a(q)[2] ** a(r)[1])))) ++ (tyy ** (a(q)[2] ** a(r)[2]))
  IN  <<b(1, 1), b(1, 2), b(2, 2)>>
\* +1 when the element's normal points along the field's, -1 otherwise
Side(g, fd) == IF RDot(g.ax[3], Normal(fd)) \prec 0 THEN -1 ELSE 1

\* Position of a reported point: plates in local x, y; quads in natural coordinates
Shape4(r, s) == <<((1 -- r) ** (1 -- s)) // 4, ((1 ++ r) ** (1 -- s)) // 4, ((1 ++ r) ** (1 ++ s)) // 4, ((1 -- r) ** (1 ++ s)) // 4>>
PointAt(m, k, g, pt) ==
  IF IsPlate(m, k) THEN VAdd(g.P[1], VAdd(VScale(pt.r, g.ax[1]), VScale(pt.s, g.ax[2])))
  ELSE LET N == Shape4(pt.r, pt.s) IN VAdd(VAdd(VScale(N[1], g.P[1]), VScale(N[2], g.P[2])), VAdd(VScale(N[3], g.P[3]), VScale(N[4], g.P[4])))

Stress(el, e) ==      \* membrane stress of the strains exx, exy (tensor), eyy
  LET nu == el.nu  q == el.E // (1 -- (nu ** nu))
  IN  <<(el.kx ** q) ** (e[1] ++ (nu ** e[3])), (el.ky ** q) ** (e[3] ++ (nu ** e[1])), (el.E // (1 ++ nu)) ** e[2]>>
\* Moments of the curvatures w,xx w,xy w,yy, as reported
Moments(isPlate, el, kap) ==
  LET D == Dplate(el)  nu == el.nu  s == IF isPlate THEN 1 ELSE -1
  IN  VScale(s, <<D ** (kap[1] ++ (nu ** kap[3])), D ** (kap[3] ++ (nu ** kap[1])), (D ** (1 -- nu)) ** kap[2]>>)

Vec3(v) == Len(v) = 3 /\ FiniteVec(v)
JudgeStress(what, k, pt, v, e, tol) ==
  Fail(Len(v) = Len(e) /\ FiniteVec(v), "stress missing", <<what, k>>)
  \cup IF ~(Len(v) = Len(e) /\ FiniteVec(v)) THEN {} ELSE
       Fail(\A q \in 1..Len(e) : RAbs(v[q] -- e[q]) \preceq tol, what, <<k, RStr(pt.r), RStr(pt.s), [q \in 1..Len(e) |-> RStr(v[q])], [q \in 1..Len(e) |-> RStr(e[q])], RStr(tol)>>)

\* rel: relative size of rounding (1e-9 where all displacements are prescribed, larger where they are solved for)
JudgeFieldElement(m, fd, k, rec, D, rel) ==
  LET el == ElemOf(m, k)  g == Geom(m, k)  s == Scales(g, el, LocalDisp(g, el, D))
      sd == Side(g, fd)
      strain == InAxes(g, fd, fd.u[2], (fd.u[3] ++ fd.v[2]) // 2, fd.v[3])
      S == Stress(el, strain)
      c1 == RDot(g.ax[1], fd.ex)  c2 == RDot(g.ax[1], fd.ey)  d1 == RDot(g.ax[2], fd.ex)  d2 == RDot(g.ax[2], fd.ey)
      \* third derivatives of w along the element's axes: gradient of w,xx + w,yy
      q0 == VScale(sd, <<(fd.w[7] ** c1) ++ (fd.w[8] ** c2), (fd.w[7] ** d1) ++ (fd.w[8] ** d2)>>)
      Q == VScale(RNeg(Dplate(el)), q0)
      one(pt) ==
        LET xy == FieldXY(fd, PointAt(m, k, g, pt))
            kap == VScale(sd, InAxes(g, fd, FieldKxx(fd, xy[1], xy[2]), FieldKxy(fd, xy[1], xy[2]), FieldKyy(fd, xy[1], xy[2])))
            far == (1 ++ RAbs(pt.r)) ** (1 ++ RAbs(pt.s))
        IN  JudgeStress("membrane stress", k, pt, pt.S, S, rel ** (s.S ** far))
            \cup JudgeStress("moment", k, pt, pt.M, Moments(IsPlate(m, k), el, kap), rel ** (s.M ** far))
            \cup JudgeStress("shear", k, pt, pt.Q, Q, rel ** (s.Q ** far))
      f == LocalForces(g, rec.F)
      still == REq(strain[1], 0) /\ REq(strain[2], 0) /\ REq(strain[3], 0)
      flat == \A q \in 4..8 : REq(fd.w[q], 0)
  IN  UnionSeq(Len(rec.pts), LAMBDA q : one(rec.pts[q]))
      \cup Fail(~still \/ \A a \in 1..4 : RAbs(f[a][1]) \preceq (rel ** s.Fm) /\ RAbs(f[a][2]) \preceq (rel ** s.Fm), "membrane forces under a rigid motion", <<k, RStr(f[1][1]), RStr(f[1][2]), RStr(s.Fm)>>)
      \cup Fail(~flat \/ \A a \in 1..4 : /\ RAbs(f[a][3]) \preceq (rel ** s.Fb)
                                         /\ RAbs(f[a][4]) \preceq (rel ** (g.l ** s.Fb)) /\ RAbs(f[a][5]) \preceq (rel ** (g.l ** s.Fb)),
                "bending forces under a rigid motion", <<k, RStr(f[1][3]), RStr(f[1][4]), RStr(s.Fb)>>)

JudgeField(m, fd, o, rel) ==
  LET gam == IF IsNull(fd.shear) THEN <<0, 0>> ELSE LET el == m.quads[fd.shear] IN <<ShearSlope(el, fd.w[7]), ShearSlope(el, fd.w[8])>>
      exp == Eager([n \in Rng(fd.nodes) |-> FieldAt(fd, Pos(m.nodes[n]), gam)])
      ns == SetToSeq(Rng(fd.nodes))
      su == RMaxSeq([q \in 1..Len(ns) |-> RMaxSeq(VAbs(SubSeq(exp[ns[q]], 1, 3)))])
      sr == RMaxSeq([q \in 1..Len(ns) |-> RMaxSeq(VAbs(SubSeq(exp[ns[q]], 4, 6)))])
      size == RMaxSeq([q \in 1..Len(ns) |-> Norm(VSub(Pos(m.nodes[ns[q]]), Pos(m.nodes[ns[1]])))])
      tol(d) == "1e-7" ** (IF d <= 3 THEN su ++ (size ** sr) ELSE sr ++ (su // size))
  IN  UNION {UnionSeq(6, LAMBDA d : Fail(Within(o.D[n][d], exp[n][d], tol(d)), "field", <<n, Dofs[d], RStr(o.D[n][d]), RStr(exp[n][d]), RStr(tol(d))>>)) : n \in Rng(fd.nodes)}
      \cup UNION {JudgeFieldElement(m, fd, k, o.pl[k], o.D, rel) : k \in DOMAIN o.pl}

----------------------------------------------------------------------------
(* Work and interpolation *)

\* Gauss points in [-1, 1] and weights
G2 == Eager(<<RNeg(RSqrt("1/3")), RSqrt("1/3")>>)
G3 == Eager(<<RNeg(RSqrt("3/5")), 0, RSqrt("3/5")>>)
W3 == <<"5/9", "8/9", "5/9">>
GaussGrid(n) == IF n = 2 THEN <<<<G2[1], G2[1], 1>>, <<G2[2], G2[1], 1>>, <<G2[2], G2[2], 1>>, <<G2[1], G2[2], 1>>>>
                ELSE [q \in 1..9 |-> LET a == ((q - 1) % 3) + 1  b == ((q - 1) \div 3) + 1 IN <<G3[a], G3[b], W3[a] ** W3[b]>>]

\* Derivatives of the corner functions with respect to local x and y, and the determinant
Jac(p, r, s) ==
  LET dr == <<(s -- 1) // 4, (1 -- s) // 4, (1 ++ s) // 4, RNeg(1 ++ s) // 4>>
      ds == <<(r -- 1) // 4, RNeg(1 ++ r) // 4, (1 ++ r) // 4, (1 -- r) // 4>>
      sm(q, w) == RSum([a \in 1..4 |-> q[a] ** p[a][w]])
      j11 == sm(dr, 1)  j12 == sm(dr, 2)  j21 == sm(ds, 1)  j22 == sm(ds, 2)
      det == (j11 ** j22) -- (j12 ** j21)
  IN  Eager([det |-> det,
             dx |-> [a \in 1..4 |-> ((j22 ** dr[a]) -- (j12 ** ds[a])) // det],
             dy |-> [a \in 1..4 |-> ((j11 ** ds[a]) -- (j21 ** dr[a])) // det]])
MembraneAt(el, J, d) ==
  LET sm(v, q) == RSum([a \in 1..4 |-> v[a] ** d[a][q]])
  IN  Stress(el, <<sm(J.dx, 1), (sm(J.dy, 1) ++ sm(J.dx, 2)) // 2, sm(J.dy, 2)>>)

NatOf(m, k, g, pt) == IF IsPlate(m, k) THEN <<((2 ** pt.r) // g.p[2][1]) -- 1, ((2 ** pt.s) // g.p[4][2]) -- 1>> ELSE <<pt.r, pt.s>>
Parallel(g) == Norm(VAdd(VSub(g.P[1], g.P[2]), VSub(g.P[3], g.P[4]))) \preceq ("1e-12" ** g.l)
IsGauss2(q) == RAbs(RAbs(q[1]) -- G2[2]) \preceq "1e-9" /\ RAbs(RAbs(q[2]) -- G2[2]) \preceq "1e-9"

\* Membrane stresses are those of the bilinear displacement field (at any point of a parallelogram; at the sampling points of others)
JudgeMembrane(m, k, rec, D) ==
  LET el == ElemOf(m, k)  g == Geom(m, k)  d == LocalDisp(g, el, D)  s == Scales(g, el, d)
      one(pt) == LET q == NatOf(m, k, g, pt)
                     far == (1 ++ RAbs(q[1])) ** (1 ++ RAbs(q[2]))
                 IN  IF Parallel(g) \/ IsGauss2(q) THEN JudgeStress("membrane stress of the displacements", k, pt, pt.S, MembraneAt(el, Jac(g.p, q[1], q[2]), d), "1e-8" ** (s.S ** far)) ELSE {}
  IN  UnionSeq(Len(rec.pts), LAMBDA q : one(rec.pts[q]))

\* Terms of the plate polynomial and their derivatives at (x, y)
Mono(x, y) == <<1, x, y, x ** x, x ** y, y ** y, x ** (x ** x), (x ** x) ** y, x ** (y ** y), y ** (y ** y), (x ** (x ** x)) ** y, x ** (y ** (y ** y))>>
MonoY(x, y) == <<0, 0, 1, 0, x, 2 ** y, 0, x ** x, 2 ** (x ** y), 3 ** (y ** y), x ** (x ** x), (3 ** x) ** (y ** y)>>
MonoX(x, y) == <<0, 1, 0, 2 ** x, y, 0, 3 ** (x ** x), 2 ** (x ** y), y ** y, 0, 3 ** ((x ** x) ** y), y ** (y ** y)>>
MonoXX(x, y) == <<0, 0, 0, 2, 0, 0, 6 ** x, 2 ** y, 0, 0, 6 ** (x ** y), 0>>
MonoYY(x, y) == <<0, 0, 0, 0, 0, 2, 0, 0, 2 ** x, 6 ** y, 0, 6 ** (x ** y)>>
MonoXY(x, y) == <<0, 0, 0, 0, 1, 0, 0, 2 ** x, 2 ** y, 0, 3 ** (x ** x), 3 ** (y ** y)>>
\* derivatives of w,xx + w,yy
MonoLx(x, y) == <<0, 0, 0, 0, 0, 0, 6, 0, 2, 0, 6 ** y, 6 ** y>>
MonoLy(x, y) == <<0, 0, 0, 0, 0, 0, 0, 2, 0, 6, 6 ** x, 6 ** x>>

PlatePoly(g, d) ==
  LET rows == Concat([a \in 1..4 |-> LET x == g.p[a][1] y == g.p[a][2] IN <<Mono(x, y), MonoY(x, y), VScale(-1, MonoX(x, y))>>])
      rhs == Concat([a \in 1..4 |-> <<d[a][3], d[a][4], d[a][5]>>])
  IN  Eager(RSolve(rows, rhs).x)
JudgePlatePoly(m, k, rec, D) ==
  LET el == ElemOf(m, k)  g == Geom(m, k)  d == LocalDisp(g, el, D)  s == Scales(g, el, d)
      a == PlatePoly(g, d)
      one(pt) == LET x == pt.r y == pt.s
                     kap == <<RDot(a, MonoXX(x, y)), RDot(a, MonoXY(x, y)), RDot(a, MonoYY(x, y))>>
                     far == (1 ++ (RAbs(x) // g.h)) ** (1 ++ (RAbs(y) // g.h))
                 IN  JudgeStress("moment of the plate's displacements", k, pt, pt.M, Moments(TRUE, el, kap), "1e-8" ** (s.M ** far))
                     \cup JudgeStress("shear of the plate's displacements", k, pt, pt.Q, VScale(RNeg(Dplate(el)), <<RDot(a, MonoLx(x, y)), RDot(a, MonoLy(x, y))>>), "1e-8" ** (s.Q ** far))
  IN  UnionSeq(Len(rec.pts), LAMBDA q : one(rec.pts[q]))

\* The work of the corner forces (without pressure and drilling springs) is that of the stresses.  The first points
\* of rec.pts are the Gauss points of an n by n grid.
QuadForm(a, b, c, nu, v) ==      \* v . C^-1 v for C = [[a, nu a, 0], [nu b, b, 0], [0, 0, c]]
  (((((v[1] ** v[1]) // a) ++ ((v[2] ** v[2]) // b)) -- ((nu ** (v[1] ** v[2])) ** ((1 // a) ++ (1 // b)))) // (1 -- (nu ** nu))) ++ ((v[3] ** v[3]) // c)
JudgeWork(m, c, k, rec, D) ==
  LET el == ElemOf(m, k)  g == Geom(m, k)  d == LocalDisp(g, el, D)  f == LocalForces(g, rec.F)  s == Scales(g, el, d)
      n == IF IsPlate(m, k) THEN 3 ELSE 2
      gg == GaussGrid(n)
      nu == el.nu  E == el.E  q == E // (1 -- (nu ** nu))  Gm == E // (2 ** (1 ++ nu))
      Db == Dplate(el)
      term(i) == LET pt == rec.pts[i]
                     dA == Jac(g.p, gg[i][1], gg[i][2]).det ** gg[i][3]
                     mem == el.t ** QuadForm(q ** el.kx, q ** el.ky, Gm, nu, pt.S)
                     ben == QuadForm(Db, Db, (Db ** (1 -- nu)) // 2, nu, pt.M)
                     she == IF IsPlate(m, k) THEN 0 ELSE RDot(pt.Q, pt.Q) // (("5/6" ** Gm) ** el.t)
                 IN  <<dA ** mem, dA ** ben, dA ** she>>
      ts == Eager([i \in 1..(n * n) |-> term(i)])
      part(w) == RSum([i \in 1..(n * n) |-> ts[i][w]])
      done(qs) == RSum(Concat([a \in 1..4 |-> [w \in 1..Len(qs) |-> f[a][qs[w]] ** d[a][qs[w]]]]))
      size(qs) == RSum(Concat([a \in 1..4 |-> [w \in 1..Len(qs) |-> RAbs(f[a][qs[w]] ** d[a][qs[w]])]]))
      at == \A i \in 1..(n * n) : LET z == NatOf(m, k, g, rec.pts[i]) IN RAbs(z[1] -- gg[i][1]) \preceq "1e-9" /\ RAbs(z[2] -- gg[i][2]) \preceq "1e-9"
      fin == \A i \in 1..(n * n) : Vec3(rec.pts[i].M) /\ Vec3(rec.pts[i].S) /\ Len(rec.pts[i].Q) = 2 /\ FiniteVec(rec.pts[i].Q)
  IN  IF ~REq(PressureOf(el, c), 0) \/ ~(FiniteVec(rec.F) /\ fin) THEN Fail(FiniteVec(rec.F) /\ fin, "finite", k)
      ELSE Fail(at, "harness: points are not the Gauss points", k)
           \cup Fail(RAbs(done(<<1, 2>>) -- part(1)) \preceq (("1e-8" ** size(<<1, 2>>)) ++ ("1e-13" ** (s.Wm ++ s.floor))), "membrane work", <<k, RStr(done(<<1, 2>>)), RStr(part(1))>>)
           \cup Fail(RAbs(done(<<3, 4, 5>>) -- (part(2) ++ part(3))) \preceq (("1e-8" ** size(<<3, 4, 5>>)) ++ ("1e-13" ** (s.Wb ++ s.floor))), "bending work", <<k, RStr(done(<<3, 4, 5>>)), RStr(part(2)), RStr(part(3))>>)

----------------------------------------------------------------------------
(* Whole models *)

\* The corner forces of all elements added to the residual of the frame parts
WithElements(m, cx, o, R, c) ==
  LET ks == SetToSeq(DOMAIN m.plates \cup DOMAIN m.quads)
      ds(k) == LET el == ElemOf(m, k) IN Concat([a \in 1..4 |-> NodeDofs(cx, Corners(el)[a])])
      sc == Eager([q \in 1..Len(ks) |-> ForceScale(m, ks[q], o.D)])
      ab(q) == [i \in 1..24 |-> sc[q] ++ RAbs(o.pl[ks[q]].F[i])]
      N == 6 * Len(cx.names)
  IN  IF ks = <<>> THEN R
      ELSE Eager([r |-> VAdd(R.r, VAssemble(N, [q \in 1..Len(ks) |-> <<ds(ks[q]), o.pl[ks[q]].F>>])),
                  a |-> VAdd(R.a, VAssemble(N, [q \in 1..Len(ks) |-> <<ds(ks[q]), ab(q)>>])),
                  m |-> RMaxSeq(<<R.m>> \o sc)])
ElementsKnown(m, o) == \A k \in DOMAIN m.plates \cup DOMAIN m.quads : k \in DOMAIN o.pl /\ Len(o.pl[k].F) = 24 /\ FiniteVec(o.pl[k].F)

JudgeElements(m, c, o, which) ==
  UNION {LET rec == o.pl[k]
         IN  (IF "P17" \in which THEN JudgeEquilibrium(m, c, k, rec.F, o.D) \cup JudgeDrilling(m, k, rec.F, o.D) ELSE {})
             \cup (IF "P20" \in which
                   THEN JudgeMembrane(m, k, rec, o.D)
                        \cup (IF IsPlate(m, k) THEN JudgePlatePoly(m, k, rec, o.D) ELSE {})
                        \cup (IF Len(rec.pts) >= (IF IsPlate(m, k) THEN 9 ELSE 4) THEN JudgeWork(m, c, k, rec, o.D) ELSE {})
                   ELSE {}) : k \in DOMAIN o.pl}
=============================================================================
