------------------------------ MODULE Content ------------------------------
(***************************************************************************)
(* Judging the recorded content of a model: against the content the calls  *)
(* should have produced, and across renaming and merging, whose outcome is *)
(* determined only up to the choice of names.                              *)
(***************************************************************************)
EXTENDS Judge

Registries == {"mats", "secs", "nodes", "aux", "springs", "members", "plates", "quads", "combos"}
Bare(r) == [f \in DOMAIN r \ {"name"} |-> r[f]]

\* m: expected content; p: recorded content
SameRegistry(m, p, reg) ==
  Fail(DOMAIN m[reg] = DOMAIN p[reg], "registry " \o reg, <<DOMAIN m[reg], DOMAIN p[reg]>>)
  \cup UNION {Fail(RSame(Bare(p[reg][k]), m[reg][k]), "content of " \o reg, <<k, Bare(p[reg][k]), m[reg][k]>>)
              \cup Fail("name" \notin DOMAIN p[reg][k] \/ p[reg][k].name = k, "name field of " \o reg, <<k, p[reg][k]>>)
              : k \in DOMAIN m[reg] \cap DOMAIN p[reg]}
SameContent(m, p) == UNION {SameRegistry(m, p, reg) : reg \in Registries}

----------------------------------------------------------------------------
(* Renaming: a bijection of every registry that preserves the content and  *)
(* the connectivity.  Nodes are told apart by their records; those with    *)
(* equal records are interchangeable.                                      *)

Ref(el, map, dom) == [f \in DOMAIN el |-> IF f \in dom /\ el[f] \in DOMAIN map THEN map[el[f]] ELSE el[f]]
Image(m, p, reg, k, recOf(_)) == {q \in DOMAIN p[reg] : RSame(Bare(p[reg][q]), recOf(m[reg][k]))}

JudgeRename(m, p) ==
  LET keep(r) == r
      img(k) == Image(m, p, "nodes", k, keep)
      ok == /\ Cardinality(DOMAIN m.nodes) = Cardinality(DOMAIN p.nodes)
            /\ \A k \in DOMAIN m.nodes : Cardinality(img(k)) = Cardinality({q \in DOMAIN m.nodes : RSame(m.nodes[q], m.nodes[k])})
      map == [k \in DOMAIN m.nodes |-> CHOOSE q \in img(k) : TRUE]
      \* one of each class of interchangeable nodes stands for all of them
      pmap == [q \in DOMAIN p.nodes |-> CHOOSE z \in {y \in DOMAIN p.nodes : RSame(Bare(p.nodes[y]), Bare(p.nodes[q]))} : TRUE]
      elems(reg) ==
        Fail(Cardinality(DOMAIN m[reg]) = Cardinality(DOMAIN p[reg]), "renaming loses " \o reg, <<DOMAIN m[reg], DOMAIN p[reg]>>)
        \cup UNION {LET n(set) == Cardinality(set)
                        rec == Ref(m[reg][k], map, {"i", "j", "m", "n"})
                    IN  Fail(n({q \in DOMAIN p[reg] : RSame(Ref(Bare(p[reg][q]), pmap, {"i", "j", "m", "n"}), rec)}) = n({q \in DOMAIN m[reg] : RSame(Ref(m[reg][q], map, {"i", "j", "m", "n"}), rec)}),
                             "renaming changes " \o reg, <<k, rec>>) : k \in DOMAIN m[reg]}
        \cup UNION {Fail(p[reg][q].name = q, "name field of " \o reg, q) : q \in DOMAIN p[reg]}
  IN  IF ~ok THEN {<<"renaming changes nodes", <<DOMAIN m.nodes, DOMAIN p.nodes>>>>}
      ELSE UNION {elems(reg) : reg \in Elements} \cup UNION {SameRegistry(m, p, reg) : reg \in {"mats", "secs", "aux", "combos"}}
           \cup UNION {Fail(p.nodes[q].name = q, "name field of nodes", q) : q \in DOMAIN p.nodes}

----------------------------------------------------------------------------
(* Merging duplicate nodes *)

BagOf(s) == [x \in Rng(s) |-> Cardinality({k \in DOMAIN s : s[k] = x})]
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Cardinality({j \in DOMAIN a : RSame(a[j], a[k])}) = Cardinality({j \in DOMAIN b : RSame(b[j], a[k])})

\* removed: the reported names
JudgeMerge(m, p, removed, tol) ==
  LET near(a, b) == Dist(m.nodes[a], m.nodes[b]) \preceq tol
      N == DOMAIN m.nodes
      live == DOMAIN p.nodes
      nbr == Eager([n \in N |-> {k \in N : near(n, k)}])     \* the cluster (generators keep clusters separate)
      rep == [n \in N |-> IF nbr[n] \cap live = {} THEN None ELSE CHOOSE k \in nbr[n] \cap live : TRUE]
      structure ==
        Fail(live \subseteq N, "merging creates nodes", live \ N)
        \cup Fail(\A n \in N : Cardinality(nbr[n] \cap live) = 1, "not one survivor per cluster", {<<n, nbr[n] \cap live>> : n \in N})
        \cup Fail(Rng(removed) = N \ live /\ Len(removed) = Cardinality(N \ live), "removed names", <<removed, N \ live>>)
      node(n) ==
        LET C == nbr[n] r == p.nodes[n]
            sup == [d \in 1..6 |-> \E k \in C : m.nodes[k].sup[d]]
            \* springs acting the same way at one point act in parallel
            springsAt(d) == {k \in C : m.nodes[k].spr[d] # <<>>}
            spr == \A d \in 1..6 :
                     LET S == SetToSeq(springsAt(d))
                         alike == \A q \in 1..Len(S) : m.nodes[S[q]].spr[d][2] = m.nodes[S[1]].spr[d][2]
                     IN  IF S = <<>> THEN r.spr[d] = <<>>
                         ELSE r.spr[d] # <<>> /\ IF alike THEN RSame(r.spr[d], <<RSum([q \in 1..Len(S) |-> m.nodes[S[q]].spr[d][1]]), m.nodes[S[1]].spr[d][2]>>)
                                                 ELSE \E k \in springsAt(d) : RSame(r.spr[d], m.nodes[k].spr[d])
            disp == \A d \in 1..6 : IF \A k \in C : IsNull(m.nodes[k].disp[d]) THEN IsNull(r.disp[d])
                                    ELSE \E k \in C : ~IsNull(m.nodes[k].disp[d]) /\ RSame(r.disp[d], m.nodes[k].disp[d])
            loads == Concat([q \in 1..Cardinality(C) |-> m.nodes[SetToSeq(C)[q]].loads])
        IN  Fail(RSame(<<r.X, r.Y, r.Z>>, Pos(m.nodes[n])), "position of the survivor", n)
            \cup Fail(r.sup = sup, "supports of the survivor", <<n, r.sup, sup>>)
            \cup Fail(spr, "support springs of the survivor", <<n, r.spr>>)
            \cup Fail(disp, "prescribed displacements of the survivor", <<n, r.disp>>)
            \cup Fail(SameBag(loads, r.loads), "loads of the survivor", <<n, r.loads, loads>>)
      elems(reg) == Fail(DOMAIN m[reg] = DOMAIN p[reg], "merging changes " \o reg, <<DOMAIN m[reg], DOMAIN p[reg]>>)
                    \cup UNION {LET e == Ref(m[reg][k], rep, {"i", "j", "m", "n"}) IN Fail(RSame(Bare(p[reg][k]), e), "connectivity of " \o reg, <<k, Bare(p[reg][k]), e>>)
                                : k \in DOMAIN m[reg] \cap DOMAIN p[reg]}
  IN  IF structure # {} THEN structure
      ELSE UNION {node(n) : n \in live} \cup UNION {elems(reg) : reg \in Elements}
           \cup UNION {SameRegistry(m, p, reg) : reg \in {"mats", "secs", "aux", "combos"}}

\* Content without names: adopt what was recorded
Adopt(m, p) == [reg \in Registries |-> [k \in DOMAIN p[reg] |-> Bare(p[reg][k])]] @@ [meshes |-> m.meshes, solved |-> p.solved]
=============================================================================
