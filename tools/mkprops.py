#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

FEM, ANA, MEM, PHY = "PyNite/FEModel3D.py", "PyNite/Analysis.py", "PyNite/Member3D.py", "PyNite/PhysMember.py"
SZ, SY, FER, SPR, NOD = "PyNite/BeamSegZ.py", "PyNite/BeamSegY.py", "PyNite/FixedEndReactions.py", "PyNite/Spring3D.py", "PyNite/Node3D.py"
QUA, PLA, MES = "PyNite/Quad3D.py", "PyNite/Plate3D.py", "PyNite/Mesh.py"

prop("P01", "Reported reactions balance the applied loads and appear only at supports",
 "After a first-order analysis, for every analysed load combination, the reported support reactions plus all factored applied loads (nodal forces and moments, member point and distributed loads in local or global directions, self-weight, surface pressures) sum to zero in force and in moment about any point. "
 "A degree of freedom with neither a support nor a support spring reports zero reaction, and a support spring reports the force it exerts on the structure, minus stiffness times displacement.",
 ["inputs", "configurations"], "every stable model (frames, springs, support springs, settlements of supported directions, plates/quads), every load combination",
 "Tests compare a few reactions of a few models to handbook values; a sign or index slip at one end, direction, element kind or load type is invisible unless that exact case is sampled.",
 [FEM, ANA, MEM, SPR, PLA, QUA],
 [("_calc_reactions", "PyNite/Analysis.py:_calc_reactions"), ("load vectors P and FER", "PyNite/FEModel3D.py:P, FER"), ("member fixed end reactions", "PyNite/Member3D.py:_fer_unc")])

prop("P02", "Reported nodal displacements solve the frame's stiffness equations",
 "After a first-order analysis of a model of frame members and springs, the reported displacements equal the prescribed values at supported and settled degrees of freedom, and at every other degree of freedom the forces of the Euler-Bernoulli members (with their end releases, local-axis orientation, vertical/inclined position and auxiliary node), two-node springs and support springs are in equilibrium with the factored loads. "
 "The same displacements are reported by the general and linear analyses and by the sparse and dense solvers.",
 ["inputs", "configurations"], "every member orientation, release pattern, support pattern, section/material, load mix and solver option",
 "The stiffness law has 12x12 terms per member, a 3-way axis rule and 2^12 release patterns; the tests sample a handful of mostly planar frames and look at one or two displacements.",
 [FEM, ANA, MEM, SPR, FER],
 [("member stiffness and condensation", "PyNite/Member3D.py:k, _k_unc, fer"), ("local axes", "PyNite/Member3D.py:T"), ("assembly", "PyNite/FEModel3D.py:K"), ("partition/solve/unpartition", "PyNite/Analysis.py:_partition_D, _unpartition_disp; PyNite/FEModel3D.py:analyze, analyze_linear")])

prop("P03", "Load combinations superpose linearly and stay independent; tags select them",
 "For a model without one-way features or prescribed displacements, every reported displacement, reaction and member result of a combination is the sum over its load cases of factor times the result of that case alone, whichever first-order analysis is used. "
 "The results of a combination do not depend on which other combinations exist or their order; an analysis given tags produces results for exactly the combinations carrying one of the tags; and a model without combinations is analysed for 'Combo 1' = 1.0 x 'Case 1'.",
 ["inputs", "configurations"], "all load cases, factors (negative, zero, repeated), combination sets, tag sets",
 "Superposition quantifies over all combinations of cases and factors; tests use one combination at a time and never compare combinations.",
 [FEM, ANA, MEM, "PyNite/LoadCombo.py"],
 [("combo selection", "PyNite/Analysis.py:_identify_combos"), ("factored loads", "PyNite/FEModel3D.py:P, FER; PyNite/Member3D.py:_fer_unc"), ("one-combo result cache", "PyNite/Member3D.py:_solved_combo")])

prop("P04", "A physical member behaves the same however nodes subdivide it",
 "Adding nodes on the line of a member (unsupported, unloaded, unconnected to anything else) changes none of its own first-order results: end displacements, reactions, and the member's shear, moment, axial force, torque and deflection at every position, in point queries and in arrays, equal those of the member without the extra nodes. "
 "Internal nodes connect the member to whatever else is attached to them, distributed and point loads keep their resultant and position across the subdivision, end releases act only at the member's two ends, and nodes off the member's line or beyond its ends do not subdivide it.",
 ["inputs", "configurations"], "every member, node placement order, number of internal nodes, load position relative to the nodes",
 "Tests use at most one internal node and uniform loads; partial trapezoids crossing several nodes, loads exactly at a node and >2 segments are not sampled.",
 [PHY, MEM],
 [("descritize", "PyNite/PhysMember.py:descritize"), ("find_member and result dispatch", "PyNite/PhysMember.py:find_member, shear, moment, axial, torque, deflection")])

prop("P05", "Member internal forces satisfy section equilibrium at every position",
 "After a first-order analysis, for every member, combination and position x away from a point load, the reported shears, bending moments, torque and axial force equal the resultants, at x, of the member end forces at its start and the factored loads applied between the start and x, in the documented sign convention. "
 "In particular end values match the end forces (zero at released ends), shear is the derivative of moment between loads, and point loads and moments produce exactly their jump.",
 ["inputs"], "all load types (point force/moment, uniform/trapezoidal, partial length, overlapping, local/global), positions, releases, orientations",
 "Diagrams are functions of a continuous x built from piecewise polynomials; the tests check max/min or a few points of simple loads.",
 [MEM, PHY, SZ, SY],
 [("segmentation of the member", "PyNite/Member3D.py:_segment_member"), ("segment polynomials", "PyNite/BeamSegZ.py, PyNite/BeamSegY.py"), ("queries", "PyNite/Member3D.py:shear, moment, torque, axial")])

prop("P06", "Reported extremes and arrays agree with the point queries",
 "After a first-order analysis, for every member, result kind (shears, moments, torque, axial force; deflections up to sampling) and combination, the reported maximum (minimum) is no smaller (larger) than any point query along the member and is attained by some position or one-sided limit. "
 "The array-returning query gives, at each of its positions, the value of the point query at that position, for the combination asked for, also after a re-analysis.",
 ["inputs", "histories"], "every member (with or without internal nodes), every loading and every order of queries, combinations and analyses",
 "Extremes are searched per segment at roots of the derivative; the tests compare a handful of maxima with tolerances of several percent.",
 [MEM, PHY, SZ, SY],
 [("extreme search", "PyNite/BeamSegZ.py:max_*, min_*; PyNite/BeamSegY.py"), ("member extremes", "PyNite/Member3D.py:max_*, min_*"), ("physical member extremes/arrays", "PyNite/PhysMember.py; PyNite/Member3D.py:*_array")])

prop("P07", "Member deflection curves match the nodal displacements and the moments",
 "After a first-order analysis, the reported transverse deflections of a member without axial or shear end releases at its ends (and at every internal node) equal the projections of the nodal displacements on its local axes, and between them the curve is the Euler-Bernoulli solution: its curvature is the reported bending moment divided by EI. "
 "The axial deflection matches nodal displacement and axial strain, and relative deflection is the deflection minus the chord between the member's two ends.",
 ["inputs"], "all members, releases, orientations, load types, positions",
 "The curve is a continuous function assembled from integration constants per segment; tests check mid-span values of uniform loads.",
 [MEM, PHY, SZ, SY],
 [("slope/deflection integration constants", "PyNite/Member3D.py:_segment_member"), ("segment slope and deflection", "PyNite/BeamSegZ.py:slope, deflection; PyNite/BeamSegY.py"), ("rel_deflection", "PyNite/Member3D.py:rel_deflection; PyNite/PhysMember.py:rel_deflection")])

prop("P08", "One-way members, springs and supports end in an admissible state",
 "When an analysis (first-order or P-Delta) returns normally, for each combination separately, a tension-only member or spring carries no compression, a compression-only one carries no tension, one-way support springs push only in their permitted direction, and anything deactivated reports zero internal force and contributes nothing to equilibrium, while all other elements act at full stiffness. "
 "An element is dropped only after it would have carried a forbidden force, a support spring is inactive only if its displacement is in the inactive direction, the state of one combination never affects another, and failure to settle raises an exception instead of returning.",
 ["inputs", "histories", "configurations"], "all arrangements of one-way elements and supports, all combinations and their order, repeated analyses",
 "The outcome of the activation iteration depends on the whole structure, load direction and previous combinations; the tests contain one braced frame and one foundation beam.",
 [ANA, FEM, SPR, MEM, NOD],
 [("activation iteration", "PyNite/Analysis.py:_check_TC_convergence"), ("activation reset", "PyNite/Analysis.py:_prepare_model"), ("divergence guard", "PyNite/FEModel3D.py:analyze; PyNite/Analysis.py:_PDelta_step")])

prop("P09", "P-Delta results satisfy second-order equilibrium with first-order axial loads",
 "After a P-Delta analysis that returns normally, the reported displacements equal prescribed values at supported degrees of freedom and elsewhere satisfy equilibrium with each active member's elastic stiffness plus its geometric stiffness for the axial force found by the first-order solution of the same combination (compression softening, tension stiffening, plates and springs unaffected). "
 "The sparse and dense solvers agree, a combination without member axial force gives the first-order results, and a first-order analysis run afterwards is unaffected by it.",
 ["inputs", "configurations", "histories"], "all frames, load levels below buckling, combinations, solver options, preceding analyses",
 "Benchmarks cover three columns with one combination, sparse solver only.",
 [ANA, FEM, MEM],
 [("_PDelta_step", "PyNite/Analysis.py:_PDelta_step"), ("geometric stiffness", "PyNite/Member3D.py:kg; PyNite/FEModel3D.py:Kg"), ("solution marker used by member forces", "PyNite/Member3D.py:f")])

prop("P10", "Re-analysis after any history equals analysing a fresh model",
 "After any sequence of model edits (adding and deleting nodes, members, springs, loads and combinations, redefining supports, releases, prescribed displacements, properties), analyses of any kind and result queries, a new analysis reports the same displacements, reactions and member results as the same analysis of a newly built model with the same final content. "
 "Running an analysis twice changes nothing, and combinations not selected by the latest analysis report no results from it or from earlier analyses.",
 ["histories"], "all interleavings of edits, analyses (general, linear, P-Delta; tagged or not) and queries",
 "Stale caches, activation flags and solver modes only show for particular orders of calls; the one re-analysis test changes a single property.",
 [FEM, ANA, MEM, PHY, NOD],
 [("_prepare_model", "PyNite/Analysis.py:_prepare_model"), ("result caches", "PyNite/Member3D.py:_solved_combo, Segments*"), ("delete/redefine operations", "PyNite/FEModel3D.py")])

prop("P11", "Results are independent of names, insertion order, origin and global axes",
 "Renaming or inserting nodes, members, springs, supports and loads in a different order leaves every result of the corresponding entity unchanged. "
 "Translating the whole model leaves all results unchanged, rotating a model about the vertical axis rotates nodal results with it and leaves member local results unchanged, and reversing the direction in which a member is drawn (with its loads and releases mirrored) leaves nodal results unchanged.",
 ["inputs", "configurations"], "all models and all such transformations of them",
 "A metamorphic relation over pairs of models; tests check single models.",
 [FEM, ANA, MEM],
 [("numbering", "PyNite/Analysis.py:_renumber"), ("local axes", "PyNite/Member3D.py:T"), ("assembly", "PyNite/FEModel3D.py:K, FER, P")])

prop("P12", "The model registry stays consistent under every sequence of edits",
 "Every entity added is stored unchanged under the given name, or under a fresh unused name that is returned when none is given; names are never reused for a live entity of the same kind and a rejected call (duplicate name, unknown node, element or material, invalid load, support spring or displacement direction) raises and leaves the model unchanged. "
 "Deleting a node, auxiliary node, spring or member removes it and every element or reference that depends on it and nothing else; renaming all entities loses none of them and keeps their connectivity; the orphaned-node list is exactly the nodes attached to no element; and after a successful modification of geometry, properties, supports or loads the model is no longer marked as solved.",
 ["histories"], "all sequences of add/delete/rename/support/load calls with explicit, automatic and colliding names",
 "The interesting cases are sequences (delete then auto-name, rename with colliding names, delete a shared node); no test exercises deletion, renaming or automatic naming.",
 [FEM],
 [("add_*/delete_*/def_* API", "PyNite/FEModel3D.py"), ("unique_name, rename, orphaned_nodes", "PyNite/FEModel3D.py")])

prop("P13", "Merging duplicate nodes keeps connectivity, supports, loads and results",
 "After merging duplicate nodes no two remaining nodes are within the tolerance of each other and every node farther than the tolerance from all others is kept. "
 "Every member, spring, plate, quad, auxiliary reference and mesh refers only to remaining nodes, at the same positions within the tolerance; the survivor of coincident nodes has the union of their supports and support springs and all their loads and prescribed displacements; and the removed names are reported.",
 ["inputs", "histories"], "all clusters of coincident nodes, attached elements, supports and insertion orders",
 "Only exercised indirectly by one tank model.",
 [FEM],
 [("merge_duplicate_nodes", "PyNite/FEModel3D.py:merge_duplicate_nodes")])

prop("P14", "Unstable structures are rejected, never reported as solved",
 "Analysing a structure in which some node has no stiffness in a direction, or which as a whole can translate or rotate freely in its supports, raises an exception with every analysis type and either solver and leaves the model not marked as solved. "
 "An analysis that returns normally leaves a finite displacement and reaction for every node, direction and selected combination; and a stable structure is never rejected.",
 ["inputs", "configurations"], "all support and release patterns, analysis types, solver options, with stability checking on or off",
 "One unstable frame is tested with one solver; singular systems surface differently per solver and analysis type.",
 [FEM, ANA],
 [("_check_stability", "PyNite/Analysis.py:_check_stability"), ("singularity handling", "PyNite/FEModel3D.py:analyze, analyze_linear; PyNite/Analysis.py:_PDelta_step")])

prop("P15", "Rectangular meshes tile the rectangle minus its openings",
 "A rectangle mesh consists of rectangles in the chosen plane that do not overlap and whose union is exactly the requested rectangle minus its openings, with edges at every control line and opening edge, elements no larger than the mesh size allows, consistently oriented, sharing nodes with their neighbours, and with no node left inside an opening or unattached. "
 "Its nodes and elements are registered in the model under unused names without disturbing any existing entity, all elements have the requested thickness, material and modifiers, and meshes not yet generated are generated when the model is analysed.",
 ["inputs", "configurations"], "all sizes, origins, planes, control lists, opening layouts, element types, pre-existing models",
 "Tests use the meshes to compare deflections within several percent, which a slightly wrong mesh still meets.",
 [MES, FEM, ANA],
 [("RectangleMesh.generate", "PyNite/Mesh.py:RectangleMesh"), ("duplicate renaming", "PyNite/Mesh.py:_rename_duplicates"), ("generation at analysis", "PyNite/Analysis.py:_prepare_model")])

prop("P16", "Round meshes are closed, conforming rings at the requested radii and position",
 "Annulus, frustum and cylinder meshes place every node on the requested surface (radius, height, axis and origin), close on themselves around the full circle, have every interior edge shared by exactly two elements and boundary edges only at the inner/outer radii or bottom/top, and orient all elements consistently. "
 "Their nodes and elements are registered in the model under unused names without disturbing existing entities and carry the requested thickness, material and modifiers.",
 ["inputs", "configurations"], "all radii, mesh sizes, element counts, axes, origins, pre-existing models",
 "Only one cylindrical tank at the origin with the vertical axis is tested.",
 [MES, FEM],
 [("ring generators", "PyNite/Mesh.py:AnnulusRingMesh, AnnulusTransRingMesh, CylinderRingMesh"), ("assemblies", "PyNite/Mesh.py:AnnulusMesh, FrustrumMesh, CylinderMesh")])

prop("P17", "Plates and quads pass rigid-body, patch and equilibrium conditions",
 "For every rectangular plate and every convex planar quadrilateral in any position, the reported corner forces are self-equilibrated apart from the applied pressure and the documented weak drilling stiffness, rigid-body motions cause no forces or stresses, and uniform pressure is transmitted to the nodes with resultant pressure times area along the element normal. "
 "A patch of elements whose boundary is displaced by a constant-strain or constant-curvature field reproduces that field inside and reports the corresponding constant membrane stresses and bending moments at every point; displacements reported after any analysis put every free node in equilibrium.",
 ["inputs", "configurations"], "all element shapes, thicknesses, materials, orientations, pressure signs and mixes with members",
 "The tests compare a deflection or moment of a fine mesh with a handbook table within a few percent.",
 [QUA, PLA, FEM],
 [("element stiffness", "PyNite/Quad3D.py:k_b, k_m, k; PyNite/Plate3D.py"), ("pressure loads", "PyNite/Quad3D.py:fer; PyNite/Plate3D.py:fer"), ("stress recovery", "PyNite/Quad3D.py:shear, moment, membrane; PyNite/Plate3D.py")])

prop("P18", "Loads are recorded exactly and removed completely",
 "The model's list of load cases is exactly the set of cases used by its nodal, member, plate and quad loads. "
 "Self-weight adds to every member exactly its density times area times length times factor in the given direction and case; deleting all loads leaves no load and no load-induced nodal or member result anywhere while keeping supports, prescribed displacements and geometry; and loads default to full length and 'Case 1'.",
 ["inputs", "histories"], "all load kinds, cases and orders of calls",
 "Tests check one self-weight value; deletion and case listing are untested.",
 [FEM],
 [("load_cases", "PyNite/FEModel3D.py:load_cases"), ("add_member_self_weight, delete_loads", "PyNite/FEModel3D.py")])

prop("P19", "Asking for results never changes them",
 "After an analysis, any sequence of result queries - members, plates, quads, springs and nodes, for any combinations in any order, scalars, extremes and arrays, repeated - returns the same values as asking each query alone first on an identical analysed model, and leaves displacements, reactions and model content unchanged.",
 ["histories"], "all query sequences over all combinations",
 "Result caches per member are keyed on the last combination; only interleaved queries over several combinations can expose a stale one.",
 [MEM, PHY, QUA, PLA, SPR],
 [("segment cache", "PyNite/Member3D.py:_solved_combo"), ("query API", "PyNite/Member3D.py; PyNite/PhysMember.py; PyNite/Spring3D.py; PyNite/Quad3D.py; PyNite/Plate3D.py")])

prop("P20", "Plate and quad stresses belong to their corner displacements and forces",
 "For every rectangular plate and every convex planar quadrilateral, in any position and numbering and under any corner displacements, the internal moments reported at the element's points do exactly the work of the reported corner forces (energy identity over the element), "
 "plate moments and shears follow exactly from the reported corner displacements, membrane stresses are those of the corner displacements with the plane-stress law, and every load combination reports its own values.",
 ["inputs", "configurations"], "all element shapes, numberings, positions, materials, stiffness modifiers and corner displacements",
 "The tests read one or two peak values of a fine symmetric mesh within a few percent; a wrong sign, a swapped axis or a missing term in an unsymmetric state stays invisible.",
 [QUA, PLA],
 [("stress recovery", "PyNite/Quad3D.py:shear, moment, membrane; PyNite/Plate3D.py:shear, moment, membrane"), ("corner forces", "PyNite/Quad3D.py:F, f, d; PyNite/Plate3D.py:F, f, d")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
