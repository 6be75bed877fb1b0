------------------------------- MODULE Meshes -------------------------------
(***************************************************************************)
(* Meshes: which nodes and elements a generated mesh may add to the model, *)
(* and which geometry they must have.  How a mesh numbers its entities and *)
(* how it divides its surface is left open; the specification only says    *)
(* what every correct division must satisfy.                               *)
(*                                                                         *)
(* m.meshes[k] = [kind, a: arguments, op: openings, gen: BOOLEAN,          *)
(*                nodes, elems: names of the current generation]           *)
(* A recorded mesh (mo) has nodes: name -> [name, in, p], elements: name   *)
(* -> [name, type, in, c: corner names, cin, t, kx, ky, E, nu].            *)
(***************************************************************************)
EXTENDS Content

MeshRec(e) == [kind |-> e.kind, a |-> e.args, op |-> <<>>, gen |-> FALSE, nodes |-> {}, elems |-> {}]
Stale(m, G) == [n |-> UNION {m.meshes[k].nodes : k \in G}, e |-> UNION {m.meshes[k].elems : k \in G}]
\* Elements of a mesh are identified by registry and name, since plates and quads may share names
RegOf(el) == IF el.type = "Rect" THEN "plates" ELSE "quads"
ElemKeys(mo) == {<<RegOf(mo.elements[k]), k>> : k \in DOMAIN mo.elements}

\* mos: mesh name -> recorded mesh, for the meshes generated by an event; p: recorded content afterwards
JudgeGeneration(m, p, mos) ==
  LET G == DOMAIN mos
      st == Stale(m, G)
      els(reg) == {k \in DOMAIN m[reg] : <<reg, k>> \notin st.e}
      used == UNION {UNION {Ends(reg, m[reg][k]) : k \in els(reg)} : reg \in Elements}
      keepN == {n \in DOMAIN m.nodes : n \notin st.n \/ n \in used}
      newN == UNION {DOMAIN mos[k].nodes : k \in G}
      newE(reg) == UNION {{q \in DOMAIN mos[k].elements : RegOf(mos[k].elements[q]) = reg} : k \in G}
      owner(q, reg) == CHOOSE k \in G : q \in DOMAIN mos[k].elements /\ RegOf(mos[k].elements[q]) = reg
      ownerN(q) == CHOOSE k \in G : q \in DOMAIN mos[k].nodes
      kept(reg, keep) == UNION {Fail(q \in DOMAIN p[reg] /\ RSame(Bare(p[reg][q]), m[reg][q]), "mesh disturbs " \o reg, q) : q \in keep}
      total(f(_)) == LET s == SetToSeq(G) IN RSum([i \in 1..Len(s) |-> f(s[i])])
      distinct == /\ REq(Cardinality(newN), total(LAMBDA k : Cardinality(DOMAIN mos[k].nodes)))
                  /\ \A reg \in {"plates", "quads"} : REq(Cardinality(newE(reg)), total(LAMBDA k : Cardinality({q \in DOMAIN mos[k].elements : RegOf(mos[k].elements[q]) = reg})))
      mat(k) == m.mats[m.meshes[k].a.material_name]
      rec(k, el) == [i |-> el.c[1], j |-> el.c[2], m |-> el.c[3], n |-> el.c[4], t |-> m.meshes[k].a.thickness, E |-> mat(k).E, nu |-> mat(k).nu,
                     kx |-> m.meshes[k].a.kx_mod, ky |-> m.meshes[k].a.ky_mod, loads |-> <<>>]
  IN  Fail(newN \cap keepN = {} /\ \A reg \in {"plates", "quads"} : newE(reg) \cap els(reg) = {}, "mesh takes a name in use", <<newN \cap keepN>>)
      \cup Fail(distinct, "meshes share names", G)
      \cup kept("nodes", keepN) \cup UNION {kept(reg, els(reg)) : reg \in Elements}
      \cup UNION {SameRegistry(m, p, reg) : reg \in {"mats", "secs", "aux", "combos", "members", "springs"}}
      \cup Fail(DOMAIN p.nodes = keepN \cup newN, "mesh nodes in the model", <<DOMAIN p.nodes \ (keepN \cup newN), (keepN \cup newN) \ DOMAIN p.nodes>>)
      \cup UNION {Fail(DOMAIN p[reg] = els(reg) \cup newE(reg), "mesh elements in the model", <<reg, DOMAIN p[reg] \ (els(reg) \cup newE(reg))>>) : reg \in {"plates", "quads"}}
      \cup UNION {LET x == mos[ownerN(q)].nodes[q]
                  IN  Fail(x.in /\ x.name = q /\ q \in DOMAIN p.nodes /\ RSame(Bare(p.nodes[q]), NodeRec(x.p[1], x.p[2], x.p[3])), "mesh node", <<q, x>>) : q \in newN \cap DOMAIN p.nodes}
      \cup UNION {UNION {LET k == owner(q, reg)
                             x == mos[k].elements[q]
                         IN  Fail(x.in /\ x.name = q /\ x.cin /\ Rng(x.c) \subseteq DOMAIN mos[k].nodes, "mesh element", <<q, x>>)
                             \cup Fail(RSame(Bare(p[reg][q]), rec(k, x)), "properties of a mesh element", <<q, Bare(p[reg][q]), rec(k, x)>>) : q \in newE(reg) \cap DOMAIN p[reg]} : reg \in {"plates", "quads"}}
      \cup UNION {Fail(mos[k].generated, "mesh not generated", k) : k \in G}

\* The model after a generation
AfterGeneration(m, mos) ==
  [m EXCEPT !.meshes = [k \in DOMAIN @ |-> IF k \in DOMAIN mos THEN [@[k] EXCEPT !.gen = TRUE, !.nodes = DOMAIN mos[k].nodes, !.elems = ElemKeys(mos[k])] ELSE @[k]]]

----------------------------------------------------------------------------
(* Rectangles *)

\* Coordinates of a point in the plane of a rectangle mesh: <<x, y, distance from the plane>>
InPlane(a, p) ==
  LET d == VSub(p, a.origin)
  IN  CASE a.plane = "XY" -> <<d[1], d[2], d[3]>> [] a.plane = "YZ" -> <<d[3], d[2], d[1]>> [] a.plane = "XZ" -> <<d[1], d[3], d[2]>>

RMinSeq(v) == RNeg(RMaxSeq([k \in DOMAIN v |-> RNeg(v[k])]))
Clip(x, lo, hi) == RMax(lo, RMin(x, hi))

\* Area of the w-by-h rectangle without the openings
NetArea(w, h, ops) ==
  LET os == [k \in DOMAIN ops |-> [l |-> Clip(ops[k].x, 0, w), r |-> Clip(ops[k].x ++ ops[k].w, 0, w), b |-> Clip(ops[k].y, 0, h), t |-> Clip(ops[k].y ++ ops[k].h, 0, h)]]
      \* sorted distinct coordinates
      srt(S) == SetToSortSeq(S, LAMBDA x, y : x \prec y)
      xs == Eager(srt({0 ++ 0, w ++ 0} \cup {os[k].l ++ 0 : k \in DOMAIN os} \cup {os[k].r ++ 0 : k \in DOMAIN os}))
      ys == Eager(srt({0 ++ 0, h ++ 0} \cup {os[k].b ++ 0 : k \in DOMAIN os} \cup {os[k].t ++ 0 : k \in DOMAIN os}))
      open(i, j) == \E k \in DOMAIN os : os[k].l \preceq xs[i] /\ xs[i+1] \preceq os[k].r /\ os[k].b \preceq ys[j] /\ ys[j+1] \preceq os[k].t
  IN  RSum([i \in 1..(Len(xs) - 1) |-> RSum([j \in 1..(Len(ys) - 1) |-> IF open(i, j) THEN 0 ELSE (xs[i+1] -- xs[i]) ** (ys[j+1] -- ys[j])])])

JudgeRectangle(ms, mo) ==
  LET a == ms.a
      ops == ms.op
      sz == RMaxSeq(<<RAbs(a.width), RAbs(a.height), RAbs(a.origin[1]), RAbs(a.origin[2]), RAbs(a.origin[3])>>)
      eps == "1e-8" ** sz
      P == Eager([n \in DOMAIN mo.nodes |-> InPlane(a, mo.nodes[n].p)])
      els == DOMAIN mo.elements
      corner(k, q) == P[mo.elements[k].c[q]]
      B == Eager([k \in els |-> LET X == [q \in 1..4 |-> corner(k, q)[1]]  Y == [q \in 1..4 |-> corner(k, q)[2]]
                                IN  [l |-> RMinSeq(X), r |-> RMaxSeq(X), b |-> RMinSeq(Y), t |-> RMaxSeq(Y)]])
      near(x, y) == RAbs(x -- y) \preceq eps
      at(k, q) == <<IF near(corner(k, q)[1], B[k].l) THEN "l" ELSE IF near(corner(k, q)[1], B[k].r) THEN "r" ELSE "?",
                    IF near(corner(k, q)[2], B[k].b) THEN "b" ELSE IF near(corner(k, q)[2], B[k].t) THEN "t" ELSE "?">>
      shape(k) == [q \in 1..4 |-> at(k, q)]
      step(s) == \A q \in 1..4 : (s[q][1] = s[(q % 4) + 1][1]) # (s[q][2] = s[(q % 4) + 1][2])      \* neighbours differ in one coordinate
      proper(s) == Rng(s) = {"l", "r"} \X {"b", "t"} /\ step(s)
      first == CHOOSE k \in els : TRUE
      \* boxes shrunk and grown by the tolerance, computed once
      S == Eager([k \in els |-> LET h == eps // 2 IN [l |-> B[k].l ++ h, r |-> B[k].r -- h, b |-> B[k].b ++ h, t |-> B[k].t -- h]])
      W == Eager([k \in els |-> [l |-> B[k].l -- eps, r |-> B[k].r ++ eps, b |-> B[k].b -- eps, t |-> B[k].t ++ eps]])
      over(p, q, lo, hi) == eps \prec (RMin(q, hi) -- RMax(p, lo))            \* open intervals intersect
      pinned == {n \in DOMAIN mo.nodes : \E k \in els : n \in Rng(mo.elements[k].c)}
      big == a.mesh_size ** "1.000000001"
  IN  Fail(els # {}, "empty mesh", "")
      \cup Fail(\A n \in DOMAIN P : near(P[n][3], 0), "node off the plane", {n \in DOMAIN P : ~near(P[n][3], 0)})
      \cup UNION {Fail(proper(shape(k)), "element is not a rectangle", <<k, shape(k)>>)
                  \cup Fail(shape(k) = shape(first), "elements differ in orientation", <<k, shape(k), shape(first)>>)
                  \cup Fail(RNeg(eps) \preceq B[k].l /\ B[k].r \preceq (a.width ++ eps) /\ RNeg(eps) \preceq B[k].b /\ B[k].t \preceq (a.height ++ eps), "element outside the rectangle", k)
                  \cup Fail(\A o \in DOMAIN ops : ~(over(B[k].l, B[k].r, ops[o].x, ops[o].x ++ ops[o].w) /\ over(B[k].b, B[k].t, ops[o].y, ops[o].y ++ ops[o].h)), "element in an opening", k)
                  \cup Fail((B[k].r -- B[k].l) \preceq (big ++ eps) /\ (B[k].t -- B[k].b) \preceq (big ++ eps), "element larger than the mesh size", <<k, RStr(B[k].r -- B[k].l), RStr(B[k].t -- B[k].b)>>)
                  \cup Fail(\A c \in Rng(a.x_control) : ~(over(B[k].l, c, B[k].l, c) /\ over(c, B[k].r, c, B[k].r)), "element crosses a control line", k)
                  \cup Fail(\A c \in Rng(a.y_control) : ~(over(B[k].b, c, B[k].b, c) /\ over(c, B[k].t, c, B[k].t)), "element crosses a control line", k)
                  : k \in els}
      \cup Fail(\A k, q \in els : k = q \/ ~(S[k].l \prec S[q].r /\ S[q].l \prec S[k].r /\ S[k].b \prec S[q].t /\ S[q].b \prec S[k].t), "elements overlap", "")
      \cup (LET s == SetToSeq(els)
                A == RSum([i \in 1..Len(s) |-> (B[s[i]].r -- B[s[i]].l) ** (B[s[i]].t -- B[s[i]].b)])
                want == NetArea(a.width, a.height, ops)
            IN  Fail(RAbs(A -- want) \preceq (eps ** (a.width ++ a.height)), "mesh does not fill the rectangle", <<RStr(A), RStr(want)>>))
      \cup Fail(\A n, q \in DOMAIN P : n = q \/ ~(near(P[n][1], P[q][1]) /\ near(P[n][2], P[q][2])), "two mesh nodes at one place", "")
      \cup Fail(\A n \in DOMAIN P, k \in els : \/ n \in Rng(mo.elements[k].c)
                                               \/ P[n][1] \prec W[k].l \/ W[k].r \prec P[n][1] \/ P[n][2] \prec W[k].b \/ W[k].t \prec P[n][2],
                "neighbours do not share nodes", "")
      \cup Fail(DOMAIN mo.nodes = pinned, "unattached mesh nodes", DOMAIN mo.nodes \ pinned)
      \cup Fail(\A k \in els : mo.elements[k].type = a.element_type, "element type", "")

----------------------------------------------------------------------------
(* Rings: annulus, frustum, cylinder *)

\* <<u, v, h>>: coordinates across and along the axis
AboutAxis(a, p) ==
  LET d == VSub(p, a.origin)
  IN  CASE a.axis = "Y" -> <<d[1], d[3], d[2]>> [] a.axis = "X" -> <<d[3], d[2], d[1]>> [] a.axis = "Z" -> <<d[2], d[1], d[3]>>

JudgeRing(ms, mo) ==
  LET a == ms.a
      kind == ms.kind
      sz == RMaxSeq(<<RAbs(a.origin[1]), RAbs(a.origin[2]), RAbs(a.origin[3]), IF kind = "cylinder" THEN a.radius ++ RAbs(a.height) ELSE IF kind = "annulus" THEN a.outer_radius ELSE a.large_radius ++ RAbs(a.height)>>)
      eps == "1e-8" ** sz
      near(x, y) == RAbs(x -- y) \preceq eps
      C == Eager([n \in DOMAIN mo.nodes |-> LET q == AboutAxis(a, mo.nodes[n].p) IN [u |-> q[1], v |-> q[2], h |-> q[3], r |-> RSqrt((q[1] ** q[1]) ++ (q[2] ** q[2]))]])
      r1 == CASE kind = "annulus" -> a.inner_radius [] kind = "frustrum" -> a.small_radius [] OTHER -> a.radius
      r2 == CASE kind = "annulus" -> a.outer_radius [] kind = "frustrum" -> a.large_radius [] OTHER -> a.radius
      on(c) == CASE kind = "annulus" -> near(c.h, 0) /\ (r1 -- eps) \preceq c.r /\ c.r \preceq (r2 ++ eps)
                 [] kind = "frustrum" -> near(c.h ** (r2 -- r1), (c.r -- r2) ** a.height) /\ (r1 -- eps) \preceq c.r /\ c.r \preceq (r2 ++ eps)
                 [] OTHER -> near(c.r, r1) /\ RNeg(eps) \preceq c.h /\ c.h \preceq (a.height ++ eps)
      \* position across the ring, from 0 (inner radius, base) to 1 (outer radius, top)
      lay(c) == IF kind = "cylinder" THEN c.h // a.height ELSE (c.r -- r1) // (r2 -- r1)
      lo(n) == RAbs(lay(C[n])) \preceq "1e-7"
      hi(n) == RAbs(lay(C[n]) -- 1) \preceq "1e-7"
      els == DOMAIN mo.elements
      \* the ring developed into the plane: radius grows across the ring
      dev == Eager([n \in DOMAIN C |-> LET s == (1 ++ lay(C[n])) // C[n].r IN <<C[n].u ** s, C[n].v ** s>>])
      cor(k) == [q \in 1..4 |-> dev[mo.elements[k].c[q]]]
      cross(p, q, s) == ((q[1] -- p[1]) ** (s[2] -- p[2])) -- ((q[2] -- p[2]) ** (s[1] -- p[1]))
      area(k) == LET c == cor(k) IN (cross(c[1], c[2], c[3]) ++ cross(c[1], c[3], c[4])) // 2
      edges == Eager(UNION {{<<mo.elements[k].c[q], mo.elements[k].c[(q % 4) + 1], k>> : q \in 1..4} : k \in els})
      dir == Eager({<<e[1], e[2]>> : e \in edges})
      free == Eager({d \in dir : <<d[2], d[1]>> \notin dir})
      sgn == area(CHOOSE k \in els : TRUE)
      \* how often a closed chain of edges passes the half-line v = 0, u > 0 upwards, minus downwards
      passes(S) == LET up(d) == dev[d[1]][2] \prec 0 /\ 0 \preceq dev[d[2]][2]  dn(d) == dev[d[2]][2] \prec 0 /\ 0 \preceq dev[d[1]][2]
                       right(d) == LET p == dev[d[1]] q == dev[d[2]] IN 0 \prec ((((p[1] ** q[2]) -- (q[1] ** p[2])) ** (q[2] -- p[2])))
                   IN  Cardinality({d \in S : up(d) /\ right(d)}) - Cardinality({d \in S : dn(d) /\ right(d)})
      side(P(_)) == {d \in free : P(d[1]) /\ P(d[2])}
      chain(S) == \A d \in S : Cardinality({e \in S : e[1] = d[2]}) = 1 /\ Cardinality({e \in S : e[2] = d[1]}) = 1
      inner == side(lo)  outer == side(hi)
      pinned == UNION {Rng(mo.elements[k].c) : k \in els}
  IN  IF els = {} THEN {<<"empty mesh", "">>} ELSE
      UNION {Fail(on(C[n]), "node off the surface", <<n, RStr(C[n].r), RStr(C[n].h)>>) : n \in DOMAIN C}
      \cup UNION {Fail(Cardinality(Rng(mo.elements[k].c)) = 4, "element with repeated corners", k)
                  \cup Fail(0 \prec (area(k) ** sgn), "elements differ in orientation", <<k, RStr(area(k)), RStr(sgn)>>) : k \in els}
      \cup Fail(Cardinality(dir) = Cardinality(edges), "edge used twice in the same direction", {e \in edges : \E f \in edges : e # f /\ e[1] = f[1] /\ e[2] = f[2]})
      \cup Fail(free = inner \cup outer /\ inner \cap outer = {}, "open edge inside the mesh", free \ (inner \cup outer))
      \cup Fail(inner # {} /\ outer # {} /\ chain(inner) /\ chain(outer), "boundary is not a closed ring", <<Cardinality(inner), Cardinality(outer)>>)
      \cup Fail({passes(inner), passes(outer)} = {1, -1}, "mesh does not go around once", <<passes(inner), passes(outer)>>)
      \cup Fail(DOMAIN mo.nodes = pinned, "unattached mesh nodes", DOMAIN mo.nodes \ pinned)
      \cup Fail(\A n, q \in DOMAIN C : n = q \/ ~(near(C[n].u, C[q].u) /\ near(C[n].v, C[q].v) /\ near(C[n].h, C[q].h)), "two mesh nodes at one place", "")
      \cup Fail(kind # "cylinder" \/ \A k \in els : mo.elements[k].type = a.element_type, "element type", "")

JudgeMesh(ms, mo) == IF ms.kind = "rect" THEN JudgeRectangle(ms, mo) ELSE JudgeRing(ms, mo)
\* The geometry is judged once the elements refer to nodes of the mesh
Sound(mo) == mo.elements # <<>> /\ \A k \in DOMAIN mo.elements : Rng(mo.elements[k].c) \subseteq DOMAIN mo.nodes

----------------------------------------------------------------------------
(* After renaming or merging, meshes refer to live nodes and elements *)

JudgeMeshRefs(p, mos) ==
  UNION {LET mo == mos[k]
         IN  UNION {Fail(mo.nodes[n].in /\ mo.nodes[n].name \in DOMAIN p.nodes, "mesh refers to a removed node", <<k, n, mo.nodes[n].name>>) : n \in DOMAIN mo.nodes}
             \cup UNION {Fail(mo.elements[q].in /\ \A x \in Rng(mo.elements[q].c) : x \in {mo.nodes[n].name : n \in DOMAIN mo.nodes}, "mesh element refers to a node outside the mesh", <<k, q>>) : q \in DOMAIN mo.elements}
         : k \in DOMAIN mos}
=============================================================================
