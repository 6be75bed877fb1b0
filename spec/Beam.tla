-------------------------------- MODULE Beam --------------------------------
(***************************************************************************)
(* A straight prismatic Euler-Bernoulli member in its own axes: stiffness, *)
(* geometric stiffness, end releases, fixed-end forces, and the forces and *)
(* deflections at every section.  Everything is stated from first          *)
(* principles (virtual work, section equilibrium, Macaulay brackets), not  *)
(* by transcribing PyNite's segment formulas.                              *)
(*                                                                         *)
(* Local degrees of freedom: 1..6 = u v w rx ry rz of the i-end, 7..12 of  *)
(* the j-end.  A section is a record [E, G, A, Iy, Iz, J, L].              *)
(* A local load is [d, k, P, x] (k = "pt", d = 1..6 a force or moment in   *)
(* local direction d) or [d, k, w1, w2, x1, x2] (k = "dist", d = 1..3).    *)
(***************************************************************************)
EXTENDS Num, Integers, FiniteSets

----------------------------------------------------------------------------
(* Stiffness *)

BarK(s) == << <<s, RNeg(s)>>, <<RNeg(s), s>> >>

\* Bending stiffness for (deflection, slope) at both ends, per unit EI
HermiteK(L) ==
  LET L2 == L ** L  L3 == L2 ** L
      a == 12 // L3  b == 6 // L2  c == 4 // L  d == 2 // L
      n(x) == RNeg(x)
  IN << <<a, b, n(a), b>>, <<b, c, n(b), d>>, <<n(a), n(b), a, n(b)>>, <<b, d, n(b), c>> >>

\* Geometric stiffness for (deflection, slope) at both ends, per unit axial tension
HermiteG(L) ==
  LET a == "6/5" // L  b == "1/10"  c == (2 ** L) // 15  d == RNeg(L // 30)
      n(x) == RNeg(x)
  IN << <<a, b, n(a), b>>, <<b, c, n(b), d>>, <<n(a), n(b), a, n(b)>>, <<b, d, n(b), c>> >>

\* In the x-z plane the slope w' is minus the rotation about y
FlipSlope(M) == [i \in 1..4 |-> [j \in 1..4 |-> IF (i \in {2, 4}) # (j \in {2, 4}) THEN RNeg(M[i][j]) ELSE M[i][j]]]

DofBarX == <<1, 7>>
DofTor  == <<4, 10>>
DofXY   == <<2, 6, 8, 12>>
DofXZ   == <<3, 5, 9, 11>>

KElastic(p) ==
  MAssemble(12, << <<DofBarX, BarK((p.E ** p.A) // p.L)>>,
                   <<DofTor,  BarK((p.G ** p.J) // p.L)>>,
                   <<DofXY,   MScale(p.E ** p.Iz, HermiteK(p.L))>>,
                   <<DofXZ,   MScale(p.E ** p.Iy, FlipSlope(HermiteK(p.L)))>> >>)

\* N: axial force, tension positive
KGeometric(p, N) ==
  MAssemble(12, << <<DofTor, BarK((N ** (p.Iy ++ p.Iz)) // (p.A ** p.L))>>,
                   <<DofXY,  MScale(N, HermiteG(p.L))>>,
                   <<DofXZ,  MScale(N, FlipSlope(HermiteG(p.L)))>> >>)

----------------------------------------------------------------------------
(* End releases: eliminate the released member-end degrees of freedom      *)

SortedSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m}) IN F(S)

Released(rel) == {i \in 1..12 : rel[i]}

\* The stiffness matrix of the member as its nodes see it
CondenseK(K, rel) ==
  IF Released(rel) = {} THEN K
  ELSE LET r == SortedSeq(Released(rel))
           f == SortedSeq(1..12 \ Released(rel))
           X == MSolve(MSub(K, r, r), MSub(K, r, f))              \* K22^-1 K21
           C == MAdd(MSub(K, f, f), MScale(-1, MMul(MSub(K, f, r), X.x)))
       IN  MAssemble(12, << <<f, C>> >>)

\* Geometric stiffness of a released member.  Only the coupled rotations are
\* eliminated; a released degree of freedom with no geometric stiffness of
\* its own just drops out.
CondenseG(G, rel) ==
  IF Released(rel) = {} THEN G
  ELSE LET R  == Released(rel)
           r0 == SortedSeq({i \in R : \E j \in 1..12 : ~REq(G[i][j], 0)})
           f  == SortedSeq(1..12 \ R)
           X  == MSolve(MSub(G, r0, r0), MSub(G, r0, f))
       IN  IF r0 = <<>> THEN MAssemble(12, << <<f, MSub(G, f, f)>> >>)
           ELSE MAssemble(12, << <<f, MAdd(MSub(G, f, f), MScale(-1, MMul(MSub(G, f, r0), X.x)))>> >>)

\* The fixed-end force vector as the nodes see it
CondenseF(K, F, rel) ==
  IF Released(rel) = {} THEN F
  ELSE LET r == SortedSeq(Released(rel))
           f == SortedSeq(1..12 \ Released(rel))
           X == RSolve(MSub(K, r, r), VSel(F, r))
       IN  VAssemble(12, << <<f, VSub(VSel(F, f), MVec(MSub(K, f, r), X.x))>> >>)

\* A release pattern for which the member itself stays stable
ReleasesOK(K, rel) == LET r == SortedSeq(Released(rel)) IN r = <<>> \/ RRank(MSub(K, r, r)) = Len(r)

----------------------------------------------------------------------------
(* Fixed-end forces by virtual work: minus the work of the load on the     *)
(* displacement field of each unit end displacement                        *)

\* Hermite functions (v1, slope1, v2, slope2) and their derivatives at x
Her(x, L) ==
  LET t == x // L  t2 == t ** t  t3 == t2 ** t
  IN << (1 -- (3 ** t2)) ++ (2 ** t3),
        L ** ((t -- (2 ** t2)) ++ t3),
        (3 ** t2) -- (2 ** t3),
        L ** (t3 -- t2) >>
HerD(x, L) ==
  LET t == x // L  t2 == t ** t
  IN << (6 ** (t2 -- t)) // L,
        (1 -- (4 ** t)) ++ (3 ** t2),
        (6 ** (t -- t2)) // L,
        (3 ** t2) -- (2 ** t) >>
Flip(v) == <<v[1], RNeg(v[2]), v[3], RNeg(v[4])>>

\* The work of a unit load in local direction d at x on the 12 unit end displacements
Influence(d, x, L) ==
  CASE d = 1 -> VAssemble(12, << <<DofBarX, <<1 -- (x // L), x // L>>>> >>)
    [] d = 2 -> VAssemble(12, << <<DofXY, Her(x, L)>> >>)
    [] d = 3 -> VAssemble(12, << <<DofXZ, Flip(Her(x, L))>> >>)
    [] d = 4 -> VAssemble(12, << <<DofTor, <<1 -- (x // L), x // L>>>> >>)
    [] d = 5 -> VAssemble(12, << <<DofXZ, VScale(-1, Flip(HerD(x, L)))>> >>)   \* ry = -w'
    [] d = 6 -> VAssemble(12, << <<DofXY, HerD(x, L)>> >>)                     \* rz = v'

\* Boole's rule, exact for the quartic integrands of a linear load on Hermite functions
Boole(f(_), a, b) ==
  LET h == (b -- a) // 4
      S == VAdd(VAdd(VScale(7, f(a)), VScale(32, f(a ++ h))),
           VAdd(VScale(12, f(a ++ (2 ** h))), VAdd(VScale(32, f(a ++ (3 ** h))), VScale(7, f(b)))))
  IN  VScale((2 ** h) // 45, S)

Intensity(ld, x) == IF REq(ld.x1, ld.x2) THEN ld.w1
                    ELSE ld.w1 ++ (((ld.w2 -- ld.w1) ** (x -- ld.x1)) // (ld.x2 -- ld.x1))

FixedEnd1(ld, L) ==
  IF ld.k = "pt" THEN VScale(RNeg(ld.P), Influence(ld.d, ld.x, L))
  ELSE LET g(x) == VScale(RNeg(Intensity(ld, x)), Influence(ld.d, x, L)) IN Boole(g, ld.x1, ld.x2)

FixedEnd(loads, L) ==
  LET RECURSIVE S(_) S(n) == IF n = 0 THEN VZero(12) ELSE VAdd(S(n - 1), FixedEnd1(loads[n], L))
  IN  S(Len(loads))

----------------------------------------------------------------------------
(* Section forces.  The shear from the i-end to a section is a sum of      *)
(* Macaulay terms [n, c, a]:  V(x) = sum c <x-a>^n / n!   (n = -1: a       *)
(* couple, which only the moment sees).                                    *)

Fact(n) == CASE n <= 0 -> 1 [] n = 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 6 [] n = 4 -> 24 [] n = 5 -> 120 [] n = 6 -> 720
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b ** Pow(b, n - 1)

\* <x-a>^n, right-continuous (left = FALSE) or left-continuous; zero for n < 0
Mac(x, a, n, left) == IF n < 0 \/ x \prec a \/ (left /\ x \preceq a) THEN 0 ELSE Pow(x -- a, n)

\* sum of c <x-a>^(n+up) / (n+up)!
MacSum(prims, up, x, left) == RSum([k \in 1..Len(prims) |-> LET t == prims[k] IN (t.c ** Mac(x, t.a, t.n + up, left)) // Fact(t.n + up)])
MacAbs(prims, up, x) == RSum([k \in 1..Len(prims) |-> LET t == prims[k] IN RAbs(t.c ** Mac(x, t.a, t.n + up, FALSE)) // Fact(t.n + up)])

\* The Macaulay terms of one load, for transverse, axial or torsional action in direction d
LoadPrims(ld, dForce, dMoment, sMoment) ==
  IF ld.k = "pt"
  THEN IF ld.d = dForce THEN << [n |-> 0, c |-> ld.P, a |-> ld.x] >>
       ELSE IF ld.d = dMoment THEN << [n |-> -1, c |-> sMoment ** ld.P, a |-> ld.x] >>
       ELSE <<>>
  ELSE IF ld.d # dForce \/ REq(ld.x1, ld.x2) THEN <<>>
       ELSE LET s == (ld.w2 -- ld.w1) // (ld.x2 -- ld.x1)
            IN  << [n |-> 1, c |-> ld.w1, a |-> ld.x1], [n |-> 2, c |-> s, a |-> ld.x1],
                   [n |-> 1, c |-> RNeg(ld.w2), a |-> ld.x2], [n |-> 2, c |-> RNeg(s), a |-> ld.x2] >>

Concat(ss) == LET RECURSIVE S(_) S(n) == IF n = 0 THEN <<>> ELSE S(n - 1) \o ss[n] IN S(Len(ss))

Prims(f0, m0, loads, dForce, dMoment, sMoment) ==
  Eager(<< [n |-> 0, c |-> f0, a |-> 0], [n |-> -1, c |-> m0, a |-> 0] >>
        \o Concat([k \in 1..Len(loads) |-> LoadPrims(loads[k], dForce, dMoment, sMoment)]))

\* f: member end forces (12, local).  Moments use M = -V' integrated: M = m0 - V0 x - ...
PrimsXY(f, loads) == Prims(f[2], RNeg(f[6]), loads, 2, 6, -1)   \* Fy, Mz, dy
PrimsXZ(f, loads) == Prims(f[3], f[5],       loads, 3, 5, 1)    \* Fz, My, dz
PrimsX(f, loads)  == Prims(f[1], 0,          loads, 1, 0, 0)    \* axial (compression positive), dx
PrimsT(f, loads)  == Prims(f[4], 0,          loads, 4, 0, 0)    \* torque

ShearAt(pr, x)   == MacSum(pr, 0, x, FALSE)
MomentAt(pr, x)  == RNeg(MacSum(pr, 1, x, FALSE))

\* Deflection of a span between x = 0 and L from its two end deflections: EI d'' = -M
DeflAt(pr, EI, L, d1, d2, x) ==
  LET g(z) == MacSum(pr, 3, z, FALSE) // EI
      \* g(0) = 0, so the homogeneous part is linear between the end values
  IN  ((d1 ** (1 -- (x // L))) ++ (d2 ** (x // L))) ++ (g(x) -- ((x // L) ** g(L)))

\* Axial displacement: EA u' = -N
AxialDeflAt(pr, EA, u1, x) == u1 -- (MacSum(pr, 1, x, FALSE) // EA)

----------------------------------------------------------------------------
(* Extremes over 0..L of a Macaulay sum of degree at most 3, one-sided     *)
(* limits included                                                         *)

\* Sorted distinct breakpoints inside [0, L]
Breaks(pr, L) ==
  LET RECURSIVE Ins(_, _)
      Ins(s, x) == IF s = <<>> THEN <<x>>
                   ELSE IF REq(x, s[1]) THEN s
                   ELSE IF x \prec s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Ins(Tail(s), x)
      RECURSIVE B(_)
      B(n) == IF n = 0 THEN <<0, L>> ELSE IF 0 \prec pr[n].a /\ pr[n].a \prec L THEN Ins(B(n - 1), pr[n].a) ELSE B(n - 1)
  IN  Eager(B(Len(pr)))

\* Candidate values of sum c<x-a>^(n+up)/(n+up)! on the interval [a, b] (no breakpoint inside):
\* the one-sided end values and the values at zeros of the derivative (of degree <= 2)
IntervalValues(pr, up, a, b) ==
  LET h  == b -- a
      q0 == MacSum(pr, up - 1, a, FALSE)
      q1 == MacSum(pr, up - 1, a ++ (h // 2), FALSE)
      q2 == MacSum(pr, up - 1, b, TRUE)
      \* derivative as A t^2 + B t + q0, t in [0,1]
      A  == (2 ** (q0 ++ q2)) -- (4 ** q1)
      B  == (4 ** q1) -- ((3 ** q0) ++ q2)
      at(t) == IF 0 \prec t /\ t \prec 1 THEN <<MacSum(pr, up, a ++ (t ** h), FALSE)>> ELSE <<>>
      sc == RMax(RAbs(q0), RMax(RAbs(q1), RAbs(q2)))
      disc == (B ** B) -- (4 ** (A ** q0))
      roots == IF REq(sc, 0) THEN <<>>
               ELSE IF RAbs(A) \preceq (sc ** "1e-25")
                    THEN IF RAbs(B) \preceq (sc ** "1e-25") THEN <<>> ELSE at(RNeg(q0) // B)
                    ELSE IF disc \prec 0 THEN <<>>
                    ELSE LET r == RSqrt(disc) IN at((r -- B) // (2 ** A)) \o at((RNeg(B) -- r) // (2 ** A))
  IN  <<MacSum(pr, up, a, FALSE), MacSum(pr, up, b, TRUE)>> \o roots

\* up = 0: shear-like; up = 1: moment-like (negated by the caller)
AllValues(pr, up, L) == LET b == Breaks(pr, L) IN Concat([k \in 1..(Len(b) - 1) |-> IntervalValues(pr, up, b[k], b[k + 1])])
\* The same without intervals shorter than eps
CoreValues(pr, up, L, eps) ==
  LET b == Breaks(pr, L)
  IN  Concat([k \in 1..(Len(b) - 1) |-> IF (b[k + 1] -- b[k]) \preceq eps THEN <<>> ELSE IntervalValues(pr, up, b[k], b[k + 1])])
SupOf(v) == RMaxSeq(v)
InfOf(v) == RNeg(RMaxSeq(VScale(-1, v)))
=============================================================================
