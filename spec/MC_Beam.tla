------------------------------- MODULE MC_Beam -------------------------------
(***************************************************************************)
(* Self-consistency of the beam specification, checked by TLC over a grid  *)
(* of sections, release patterns, loads and positions:                     *)
(*  - stiffness and geometric stiffness are symmetric and rigid motions    *)
(*    cause no elastic force;                                              *)
(*  - fixed-end forces and loads are in static equilibrium;                *)
(*  - with end forces K d + F the section forces at the j-end equal the    *)
(*    j-end forces (V(L) = -f8, M(L) = -f12, ...), for arbitrary d;        *)
(*  - the deflection curve built from the end deflections and moments has  *)
(*    end slopes equal to the end rotations (so stiffness, fixed-end       *)
(*    forces, section forces and deflections form one consistent theory);  *)
(*  - released degrees of freedom carry no force.                          *)
(***************************************************************************)
EXTENDS Beam, TLC

\* The state picks one case of each kind by number
VARIABLES ip, il, ir, id
vars == <<ip, il, ir, id>>

Sections == << [E |-> 200, G |-> 77, A |-> 3, Iy |-> 5, Iz |-> 7, J |-> 2, L |-> 4],
              [E |-> 29, G |-> 11, A |-> "1/2", Iy |-> 2, Iz |-> 1, J |-> "1/3", L |-> "5/2"] >>
Ws == << <<2, 2>>, <<0, -3>>, <<4, 1>> >>
Ts == << <<0, 1>>, <<"1/5", "3/4">>, <<0, "1/2">> >>
Xs == <<0, "1/4", "2/3", 1>>
NLoads == 48 + 27
LoadNo(n, L) ==
  IF n <= 48 THEN LET m == n - 1 IN [k |-> "pt", d |-> (m % 6) + 1, P |-> IF (m \div 6) % 2 = 0 THEN 3 ELSE -2, x |-> L ** Xs[(m \div 12) + 1]]
  ELSE LET m == n - 49  w == Ws[((m \div 3) % 3) + 1]  t == Ts[(m \div 9) + 1]
       IN  [k |-> "dist", d |-> (m % 3) + 1, w1 |-> w[1], w2 |-> w[2], x1 |-> L ** t[1], x2 |-> L ** t[2]]
None == [i \in 1..12 |-> FALSE]
Pattern(S) == [i \in 1..12 |-> i \in S]
Releases == << None, Pattern({6}), Pattern({5, 6, 11, 12}), Pattern({12}), Pattern({1}), Pattern({8}), Pattern({4, 5}), Pattern({3, 12}) >>
Disps == << [i \in 1..12 |-> 0], [i \in 1..12 |-> i // 10], [i \in 1..12 |-> IF i \in {3, 6, 8} THEN "7/3" ELSE RNeg(i)] >>

Init == ip \in DOMAIN Sections /\ il \in 1..NLoads /\ ir \in DOMAIN Releases /\ id \in DOMAIN Disps
p == Sections[ip]
ld == LoadNo(il, p.L)
rel == Releases[ir]
d == Eager(Disps[id])
Next == UNCHANGED vars

Near(a, b) == RAbs(a -- b) \preceq "1e-60"

K == Eager(KElastic(p))
F == Eager(FixedEnd(<<ld>>, p.L))

\* A rigid motion: translation t, small rotation r about the i-end
Rigid(t, r) == <<t[1], t[2], t[3], r[1], r[2], r[3],
                 t[1], t[2] ++ (r[3] ** p.L), t[3] -- (r[2] ** p.L), r[1], r[2], r[3]>>
\* Resultant force and moment about the i-end of 12 end forces
Resultant(f) == << f[1] ++ f[7], f[2] ++ f[8], f[3] ++ f[9], f[4] ++ f[10],
                   (f[5] ++ f[11]) -- (p.L ** f[9]), (f[6] ++ f[12]) ++ (p.L ** f[8]) >>
Zero(v) == \A i \in DOMAIN v : Near(v[i], 0)

Symmetric == LET G == Eager(KGeometric(p, -5)) IN \A i, j \in 1..12 : Near(K[i][j], K[j][i]) /\ Near(G[i][j], G[j][i])
RigidFree == Zero(MVec(K, Rigid(<<1, -2, 3>>, <<"1/2", "1/3", -1>>)))
GeoTransFree == Zero(MVec(KGeometric(p, -5), Rigid(<<1, -2, 3>>, <<0, 0, 0>>)))

LoadResultant ==
  IF ld.k = "pt" THEN [i \in 1..6 |-> (IF i = ld.d THEN ld.P ELSE 0) ++
                                      (IF i = 5 /\ ld.d = 3 THEN RNeg(ld.P ** ld.x) ELSE IF i = 6 /\ ld.d = 2 THEN ld.P ** ld.x ELSE 0)]
  ELSE LET h == ld.x2 -- ld.x1
           W == (h ** (ld.w1 ++ ld.w2)) // 2
           S == (ld.x1 ** W) ++ (((h ** h) ** (ld.w1 ++ (2 ** ld.w2))) // 6)
       IN  [i \in 1..6 |-> IF i = ld.d THEN W ELSE IF i = 5 /\ ld.d = 3 THEN RNeg(S) ELSE IF i = 6 /\ ld.d = 2 THEN S ELSE 0]
FixedEndEquilibrium == Zero(VAdd(Resultant(F), LoadResultant))

f == Eager(VAdd(MVec(K, d), F))
xy == PrimsXY(f, <<ld>>)
xz == PrimsXZ(f, <<ld>>)
EndSections ==
  /\ Near(ShearAt(xy, p.L), RNeg(f[8]))  /\ Near(MomentAt(xy, p.L), RNeg(f[12])) /\ Near(MomentAt(xy, 0), IF ld.d = 6 /\ ld.k = "pt" /\ REq(ld.x, 0) THEN f[6] ++ ld.P ELSE f[6])
  /\ Near(ShearAt(xz, p.L), RNeg(f[9]))  /\ Near(MomentAt(xz, p.L), f[11])
  /\ Near(ShearAt(PrimsX(f, <<ld>>), p.L), RNeg(f[7]))
  /\ Near(ShearAt(PrimsT(f, <<ld>>), p.L), RNeg(f[10]))

Slope(pr, EI, d1, d2, x) == LET g(z, u) == MacSum(pr, u, z, FALSE) // EI
                            IN ((d2 -- d1) -- g(p.L, 3)) // p.L ++ g(x, 2)
Compatible ==
  /\ Near(Slope(xy, p.E ** p.Iz, d[2], d[8], 0), d[6]) /\ Near(Slope(xy, p.E ** p.Iz, d[2], d[8], p.L), d[12])
  /\ Near(Slope(xz, p.E ** p.Iy, d[3], d[9], 0), RNeg(d[5])) /\ Near(Slope(xz, p.E ** p.Iy, d[3], d[9], p.L), RNeg(d[11]))
  /\ Near(AxialDeflAt(PrimsX(f, <<ld>>), p.E ** p.A, d[1], p.L), d[7])

ReleasedZero ==
  LET kc == CondenseK(K, rel)  fc == CondenseF(K, F, rel)  ff == VAdd(MVec(kc, d), fc)
  IN  \A i \in 1..12 : rel[i] => Near(ff[i], 0)
\* Releasing keeps equilibrium with the load and rigid motions force-free
ReleasedEquilibrium ==
  LET kc == CondenseK(K, rel)  fc == CondenseF(K, F, rel)
  IN  Zero(VAdd(Resultant(VAdd(MVec(kc, d), fc)), LoadResultant)) /\ Zero(MVec(kc, Rigid(<<1, -2, 3>>, <<"1/2", "1/3", -1>>)))

Consistent == Symmetric /\ RigidFree /\ GeoTransFree /\ FixedEndEquilibrium /\ EndSections /\ Compatible /\ ReleasedZero /\ ReleasedEquilibrium
=============================================================================
