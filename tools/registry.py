#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, R, A, G, O, P, U = ("src/structure.rs", "src/reduce.rs", "src/analyzer.rs", "src/spacegroup.rs",
                       "src/symmop.rs", "src/pointgroup.rs", "src/utils.rs")
DC, DP, DS, L = "src/data/core.rs", "src/data/pointgroup.rs", "src/data/spacegroup.rs", "src/lib.rs"

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": qtext}, why_tests_cant=why,
        anchors={"files": files, "state": state or [],
                 "mechanism": [{"name": n, "where": w} for n, w in mech],
                 "observe_at": observe, "hook_needed": None},
        _tech=technique, _note=note))


ONE = "The unit tests exercise one hand-written AuSe monoclinic cell; "

prop("C01", "Fractional and Cartesian coordinates of a structure always agree",
     "For any non-singular lattice, building a structure from fractional or from Cartesian coordinates keeps the given coordinates and species in order, and derives the other coordinate set so that Cartesian = lattice x fractional. "
     "Every structure returned by any operation of the library (transformation, normalization, primitive, Niggli, Delaunay, conventional, standard primitive) has the same agreement and one species entry per site. "
     "Converting coordinates there and back is the identity up to rounding.",
     ["inputs", "histories"], "every lattice of either handedness, any coordinates inside or outside the cell, and every chain of structure operations",
     ONE + "agreement after each operation, for skewed or left-handed cells, is never asserted.",
     [S, R, A], [("Structure::new, get_cart_coords, get_frac_coords", S), ("normalize_coords rewrites both coordinate lists", S)],
     ["Structure.coords", "Structure.frac_coords", "Structure.species"],
     "invariant monitor on every structure handed out, random operation chains",
     "Seeded random workload; the monitor recomputes Cartesian = lattice x fractional with its own arithmetic after every operation.")

prop("C02", "Derived cell quantities follow from the lattice",
     "Cell lengths, angles in degrees, volume, metric tensor, reciprocal lattice (with the factor 2 pi), the four-vector Delaunay set and the matrix relating two cells equal their definitions for every non-singular lattice. "
     "The volume is positive for right- and left-handed cells alike.",
     ["inputs"], "every non-singular lattice, both handednesses, scales 0.5 to 500 angstrom, skewed and nearly flat cells, and every pair of cells",
     ONE + "one right-handed cell cannot distinguish swapped angles, a signed volume or a missing transpose in general.",
     [S], [("a, b, c, alpha, beta, gamma, volume, metric_tensor, reciprocal_lattice, delaunay_matrix, get_transformation_matrix", S)],
     ["return values of the accessors"],
     "reference-model monitor over random lattices",
     "Seeded random lattices compared with an independent implementation of each definition.")

prop("C03", "Normalizing coordinates only moves atoms by whole lattice vectors",
     "Normalizing brings every fractional coordinate into the interval from -tol to 1-tol, where tol is the position tolerance divided by the length of that cell vector, and changes each coordinate by a whole number only. "
     "Every atom keeps its species, sites come out grouped in species order with their previous relative order, and normalizing twice is the same as once. "
     "The same holds for lists of bare fractional vectors and for the translation of a symmetry operation.",
     ["inputs"], "any lattice, any tolerance, any coordinates including integers, boundary values, negative and large ones, any species order",
     ONE + "four vectors and one tolerance are checked, species pairing is not.",
     [U, S, O], [("normalize_frac_vectors", U), ("Structure::normalize_coords", S), ("SymmOp::normalize", O)],
     ["frac_coords, coords, species after the call"],
     "reference-model monitor, boundary-biased random workload",
     "Seeded random structures and vectors; every site is tracked through the call.")

prop("C04", "Expressing a structure in another cell keeps the crystal",
     "Transforming a structure by an integer matrix T of non-zero determinant gives the lattice L*T and exactly |det T| copies of every site, describing the same infinite crystal. "
     "Transforming to a smaller cell that is a period of the crystal gives the same crystal with correspondingly fewer sites, and transforming there and back restores the crystal and its site count.",
     ["inputs"], "every integer T (either sign of the determinant, skewed, elongated, up to 40-fold in one direction), centring transformations and their inverses, tolerances up to a third of the interatomic spacing",
     ONE + "the only assertion compares the transformed lattice; sites in the new cell are never checked.",
     [S], [("Structure::apply_transformation site search and duplicate test", S)],
     ["lattice, species and frac_coords after the call"],
     "crystal-equality monitor over random transformations, step-counted termination",
     "Crystal equality is decided by an independent site-matching oracle; non-termination by counted steps.")

prop("C05", "Primitive-cell search returns the same crystal in its smallest cell",
     "The cell returned by the primitive-cell search describes the same crystal as the input, its volume is the input volume divided by the number of translations the input cell contains, and no translation shorter than its own lattice is left. "
     "Site count and composition shrink by exactly that factor, and the cell is right-handed with its vectors ordered by length.",
     ["inputs"], "any primitive crystal written as any supercell (determinant up to 16, skewed, elongated, either handedness), rotated, shuffled, with sites shifted by lattice vectors",
     ONE + "one 4-fold supercell is reduced and only the lattice is compared.",
     [R, S], [("Reducer::find_primitive_cell", R), ("get_shortest_translation_vecs", R), ("Structure::get_min_element", S)],
     ["returned structure"],
     "crystal-equality and brute-force primitivity monitors",
     "The true primitive crystal is known by construction and confirmed by brute-force translation counting.")

prop("C06", "Niggli reduction returns a Niggli cell of the same crystal",
     "The Niggli-reduced structure describes the same crystal as the input with the same number of sites, its lattice is related to the input lattice by an integer matrix of determinant +1, and its metric satisfies all Niggli conditions, including the special conditions for equalities, within the given tolerance.",
     ["inputs"], "lattices of all 14 Bravais types and all 44 lattice characters as well as generic ones, in skewed bases of either handedness, with any sites, and slightly strained ones with a strict tolerance",
     ONE + "one already nearly reduced cell is reduced; no test checks the conditions themselves.",
     [R], [("Reducer::niggli_reduce steps A1-A8", R)],
     ["returned lattice and sites"],
     "Niggli-condition monitor plus crystal-equality monitor",
     "Conditions are checked by an independent implementation of the definition (International Tables).")

prop("C07", "The Niggli cell does not depend on the starting basis",
     "All bases of one lattice, in any orientation and handedness, reduce to the same Niggli metric, whose axes are the three shortest independent lattice vectors. "
     "Reducing an already reduced cell does not change its metric.",
     ["inputs"], "every lattice and every unimodular change of basis or rigid rotation of it",
     ONE + "uniqueness relates many inputs to each other and is never tested.",
     [R], [("Reducer::niggli_reduce", R)], ["metric of returned lattices"],
     "metamorphic monitor across presentations, shortest-vector oracle",
     "Compares the metric across random presentations and with independently computed successive minima.")

prop("C08", "Delaunay reduction returns an obtuse superbase of the same lattice",
     "Delaunay reduction without the final selection returns three vectors which, together with minus their sum, have no positive mutual scalar products. "
     "With or without the final selection of short vectors the returned cell is a basis of the same lattice and describes the same crystal with the same sites.",
     ["inputs"], "every lattice in bases of either handedness; bases that need more than 100 steps may be refused but never returned unreduced",
     ONE + "one reduced cell with selection is compared with a stored matrix.",
     [R, S], [("Reducer::delaunay_reduce", R), ("Structure::delaunay_matrix", S)], ["returned lattice and sites"],
     "scalar-product monitor plus crystal-equality monitor",
     "Definition-level oracle over seeded random lattices of all Bravais types.")

prop("C09", "The conventional cell has the metric and centring of its Bravais type",
     "The standard conventional structure describes the same crystal as the input; its cell has the axis and angle relations of the lattice's true crystal system and contains exactly the lattice points of one standard centring of that system (P; C or I; C, I, F; I; R obverse; I, F), so it shows the full point symmetry of the lattice.",
     ["inputs"], "crystals on lattices of all 14 Bravais types and all 44 lattice characters, all axial ratios, including accidentally equal axes, presented in any basis, supercell or orientation",
     ONE + "no test calls the conventional or standard primitive functions on more than one structure.",
     [A, DC], [("SymmetryAnalyzer::get_standard_conventional_structure", A), ("lattice character classification", A), ("LATTICE_CHAR_TO_CONV_TRANS", DC)],
     ["returned structure"],
     "lattice-symmetry oracle plus crystal-equality monitor",
     "The true holohedry comes from brute-force lattice automorphisms, independent of the classification under test.")

prop("C10", "The standard primitive cell is primitive and matches the conventional cell",
     "The standard primitive structure describes the same crystal as the input, contains no smaller translation, and its lattice is the standard conventional lattice multiplied by the standard centring transformation of that Bravais type.",
     ["inputs"], "same inputs as for the conventional cell",
     ONE + "the relation between the two standard cells is never asserted.",
     [A, DC], [("SymmetryAnalyzer::get_standard_primitive_structure", A), ("CENTERING_TO_PRIM_TRANS", DC)],
     ["returned structures"],
     "brute-force primitivity, crystal-equality and cross-call monitors",
     "Same workload as C09 with independent centring matrices.")

prop("C11", "Every reported symmetry operation maps the input crystal onto itself",
     "Each operation reported with a space group, read in the basis of the input structure, maps every atom of the input crystal onto an atom of the same species within tolerance and maps the input lattice onto itself.",
     ["inputs"], "crystals of all 230 space-group types, and lower-symmetry superstructures, presented as primitive, conventional, skewed, left-handed, rotated cells and supercells",
     ONE + "no test applies returned operations to atoms.",
     [A, G, O], [("SymmetryAnalyzer::get_space_group_info", A), ("SpaceGroup::apply_transformation back to the input basis", G)],
     ["returned operations"],
     "atom-mapping monitor on every returned operation",
     "Each returned operation is applied to each atom by the oracle's own arithmetic.")

prop("C12", "The reported operations are complete, distinct and closed",
     "Modulo lattice translations of the input cell, the reported operations are pairwise distinct, contain the identity, are closed under composition and inversion, and are all symmetry operations the input crystal has in that cell.",
     ["inputs"], "same inputs as for reported operations, including supercells whose shape keeps only part of the point symmetry",
     ONE + "no test counts operations of a real group or checks closure of an answer.",
     [A, G], [("get_primitive_space_group_ops", A), ("SpaceGroup::from_generators, apply_transformation", G)],
     ["returned operations"],
     "brute-force symmetry search compared with the returned set",
     "Completeness is relative to an independent brute-force symmetry finder.")

prop("C13", "A reported space-group number and symbol are the true ones",
     "Whenever the analysis reports a space group, the number is the International Tables number of the crystal's full symmetry group (distinguishing enantiomorphic pairs) and the symbol is the Hermann-Mauguin symbol of that number.",
     ["inputs"], "crystals of all 230 space-group types with generic metric, any origin, any basis, supercell, orientation and handedness, and crystals with pseudo-symmetric arrangements",
     ONE + "no test asserts an identified number.",
     [A, DS, DC], [("SymmetryAnalyzer::identify_space_group", A), ("SG_NUM_TO_FULL_MATRICES, SG_NUM_TO_SYMBOL", DS)],
     ["returned number and symbol"],
     "ground-truth monitor over generated crystals of all 230 types",
     "Ground truth by construction from Hall symbols, confirmed by brute-force operation counts; refusals (panics) outside the tabulated setting are not judged here.")

prop("C14", "Every space group in its tabulated setting and origin is recognised",
     "The analysis of a crystal returns its space-group type instead of failing. "
     "It always does so if the crystal's operations, written in its standard primitive cell, are exactly the tabulated operations of a type; "
     "in particular, at the tabulated origin, a type whose tabulated operations do not depend on the choice among equivalent standard axes is recognised in every presentation of the crystal.",
     ["inputs"], "crystals of all 230 types with generic metric at the tabulated and at other origins, in any basis, supercell, orientation and handedness",
     ONE + "no test calls the identification.",
     [A, DS, G], [("identify_space_group exact table comparison", A), ("ops closure", G)],
     ["outcome of the space-group analysis"],
     "completeness monitor with an axis-choice-independent domain computed from Hall symbols",
     "Domain membership is computed independently; refusals for other settings or origins are a recorded known finding.")

prop("C15", "Results do not depend on how the same crystal is written down",
     "Rewriting a crystal by another cell basis, a supercell, a rigid rotation, a reordering or renaming of the atoms, lattice shifts of atoms, or Cartesian instead of fractional coordinates changes neither the primitive site count, nor the lengths and angles of the Niggli, conventional and standard primitive cells, nor the reported space group. "
     "Shifting the origin does not change any of the cells.",
     ["inputs", "histories"], "every crystal and every composition of such rewritings",
     ONE + "relations between two inputs are never tested.",
     [A, R, S], [("find_primitive_cell -> niggli_reduce -> lattice character pipeline", A)],
     ["returned structures, numbers"],
     "metamorphic monitor across presentations",
     "Compares independent calls on randomly rewritten copies of one crystal.")

prop("C16", "Symmetry operations apply, compare and multiply consistently",
     "Applying an operation to a point gives R x + t; two operations compare equal exactly when their rotations are equal and their translations differ by whole numbers within tolerance, regardless of which one is on the left. "
     "The product of two operations acts like applying the right one and then the left one.",
     ["inputs"], "all pairs of operations with crystallographic rotations and any translations, compared away from the tolerance boundary",
     "The tests multiply one pair and compare one pair of operations.",
     [O, U], [("impl Mul for SymmOp", O), ("is_approx_eq", O)], ["returned operations and points"],
     "reference-model monitor over random operation pairs",
     "The composition order of products is a recorded known finding (pinned by an existing test); everything else is judged.")

prop("C17", "Generating a space group from generators gives exactly that group",
     "The operations generated from a list of distinct generators of a space group are pairwise distinct modulo lattice translations, contain every generator and all products, and contain nothing else.",
     ["inputs"], "generating sets of all 230 space groups and their subgroups in any basis, with any origin shift, in any order, translations exact or with errors far below the tolerance",
     "One commuting three-generator set is tested, and only for inclusion of four operations.",
     [G, O], [("SpaceGroup::from_generators closure loop", G)], ["SpaceGroup.operations"],
     "reference closure compared with the generated set, step-counted termination",
     "Reference closure is computed exactly in rational arithmetic.")

prop("C18", "Transforming a space group to another cell conjugates it exactly",
     "Transforming a space group by a cell transformation T gives exactly the operations {T^-1 R T | T^-1 (t+n)}, n any old lattice vector, that map the new lattice onto itself, each once modulo the new lattice.",
     ["inputs"], "all 230 groups, unimodular, enlarging, skewed and elongated T of either determinant sign, and transformations to smaller cells (centring, or back from a supercell), translations exact or with errors up to a fifth of the tolerance",
     "One diagonal doubling of a four-element group is tested for inclusion only.",
     [G], [("SpaceGroup::apply_transformation", G)], ["SpaceGroup.operations"],
     "reference conjugation compared with the transformed set",
     "Reference set is enumerated independently over lattice cosets.")

prop("C19", "The 32 point groups are the right groups in every basis",
     "Each point-group number yields the crystallographic point group named by its symbol: generated by its generators, closed, without duplicates, with the right number of rotations of each type. "
     "A change of basis conjugates every operation and every generator by the same matrix.",
     ["inputs"], "all 32 numbers (exhaustive) and random basis changes including centring transformations",
     "No unit test covers point groups.",
     [P, DP, U], [("PointGroup::from_number, generate_operations, apply_transformation", P), ("PG tables", DP)],
     ["symbol, operations, generators"],
     "exhaustive comparison with independently derived point groups, random conjugation monitor",
     "Reference point groups come from the Hall-symbol generator.")

prop("C20", "The built-in crystallographic tables are correct",
     "For all 230 space-group numbers the tabulated operations are exactly the International Tables group in its primitive basis, filed under the right lattice system and order, with the right symbol. "
     "Every lattice character maps to its Bravais type with a transformation that yields a conventional cell of that type for every lattice of that character, and the matrices of all seven centrings and the lattice point groups belong to their Bravais types.",
     ["inputs"], "all table entries (exhaustive) and random lattices for each of the 44 characters",
     "The tests read a handful of entries indirectly.",
     [DS, DC, DP, U], [("SG_NUM_TO_FULL_MATRICES, SG_NUM_TO_SYMBOL", DS), ("LATTICE_CHAR tables", DC), ("BRAVAIS_TO_HOLOHEDRY_NUM", DP), ("decode_spg_op", U)],
     ["table contents"],
     "exhaustive table monitor against Hall-symbol expansion and lattice automorphisms",
     "Trusts the Hall symbols and character definitions typed into the harness, cross-checked by group axioms.")

prop("C21", "Formulas and element statistics count every site",
     "The formula lists every species once in sorted order with its site count (omitted when 1), and the reduced formula divides all counts by their greatest common divisor. "
     "The element statistics report every species' count and the index of its first site, and the minimum element is a rarest one, the alphabetically first among ties.",
     ["inputs"], "any species list of 1 to several thousand sites, any names, any order",
     "Two formulas with at most 6 sites per element are tested.",
     [S], [("Structure::formulas", S), ("Structure::get_min_element", S)], ["returned strings and maps"],
     "reference-model monitor over random species lists",
     "Independent counting model; overflow checks are enabled in the instrumented build.")

prop("C22", "The Python functions return what the Rust functions return",
     "For every input, each Python function returns exactly the lattice (column-major), species, fractional coordinates, space-group number, symbol and operations (row-major rotations) that the corresponding Rust call computes for the same input and tolerances, and fails exactly when the Rust call fails.",
     ["inputs"], "all five functions, Cartesian and fractional input, non-symmetric lattices and rotations, varied tolerances",
     "There are no tests of the Python module.",
     [L], [("generate_input_structure, generate_output_structure_data, pyfunctions", L)],
     ["values returned by the extension module"],
     "differential monitor: extension module driven from Python against the Rust API",
     "Both sides are built from the same tree; a defect of the core cannot trip this check.")

prop("C23", "Results are repeatable across calls, threads and processes",
     "Calling any operation again with the same input, from the same thread, from several threads at once or from another process, gives the same result; for reported operations, the same set. "
     "No call changes its input or affects a later call.",
     ["schedules", "histories", "inputs"], "all operations, repeated in different orders, concurrently from 8 threads, and in fresh processes with different hash seeds",
     "Each test calls each function once in one process.",
     [A, R, S, G, P], [("lazily initialised tables", DC), ("hash maps iterated during the analysis", A)],
     ["digests of results"],
     "history/concurrency stress with result digests compared across threads and processes",
     "Digest comparison under real thread interleavings and different hash seeds.")

prop("C24", "Position errors well below the tolerance do not change the answer",
     "Displacing atoms by a small fraction of the distance tolerance changes neither the number of sites of the primitive cell nor the primitive lattice beyond that size, and the space group reported for a cell with exact lattice vectors is still the true one, with operations that hold within tolerance.",
     ["inputs"], "crystals of many space-group types, displacements up to one fifth of the tolerance, tolerances 0.01 to 0.1 angstrom",
     ONE + "no test perturbs coordinates.",
     [R, A, S], [("2*dtol matching windows", R), ("translation counting", A)], ["returned structures and groups"],
     "noise-injection monitor",
     "Displacements are generated from the seed; the unperturbed crystal is the ground truth.")

prop("C25", "Numeric comparison and decoding helpers match their definitions",
     "Tolerance comparisons of numbers, lists and matrices, the count of negative and zero entries, and the decoding of packed integers agree with their definitions for every argument away from the tolerance boundary; decoding inverts packing for every matrix and translation that can be packed.",
     ["inputs"], "random and boundary-straddling numbers, all packable rotations with entries -1, 0, 1 and all tabulated translations",
     "A few fixed values are tested.",
     [U], [("cust_eq, approx_equal, approx_equal_iter, compare_matrices, num_negative_zero, decode, decode_spg_op", U)],
     ["return values"],
     "reference-model monitor, exhaustive decode round trip",
     "Exhaustive over packed rotations and translations; random for comparisons.")

prop("C26", "Analysis of a valid crystal always finishes",
     "Finding the primitive cell, reducing, standardising and analysing any valid crystal finishes within a bounded number of steps and never breaks down with an arithmetic overflow, an index error or a singular cell.",
     ["inputs"], "hostile but valid crystals: long, flat and skewed cells, 60-fold supercells, up to 200 sites, left-handed bases, sites far outside the cell, odd species names, small and large tolerances below a quarter of the spacing",
     ONE + "termination over all inputs is beyond any finite set of examples.",
     [S, R, A, G], [("search loops without an iteration limit", S), ("closure loop", G)],
     ["outcome of each call, counted steps"],
     "hang monitor by allocation-step and CPU budgets, overflow- and assertion-checked build",
     "The step budget is more than ten times the largest value seen on the unchanged tree; refusals with a message are not judged here.")

prop("C27", "Meaningless input is refused, not answered",
     "A transformation that is not invertible is refused for structures, space groups and point groups and leaves the object as it was; a lattice with dependent vectors has no reciprocal lattice and no fractional coordinates; and a point-group number outside 1 to 32 is refused. "
     "A structure with more or fewer species than sites cannot be built, and lists of different length never compare as equal.",
     ["inputs"], "every exactly singular small integer matrix, every number outside 1 to 32, every pair of lists of different length",
     "No test passes an invalid argument.",
     [S, G, P, U], [("apply_transformation, reciprocal_lattice, get_frac_coords", S), ("apply_transformation", G), ("apply_transformation, from_number", P), ("approx_equal_iter", U)],
     ["whether the call answers, state of the object after a refusal"],
     "refusal monitor over generated meaningless inputs",
     "Singularity is exact by construction (integer matrices with dependent rows or columns).")

prop("C28", "Results do not depend on the unit of length",
     "Writing a crystal and the distance tolerance in another unit of length changes the returned primitive, reduced and conventional cells only by that factor, and leaves site counts, space-group number, symbol and operations unchanged.",
     ["inputs"], "crystals of all Bravais types and many space-group types in any presentation, factors from 1/4 to 128, symmetry exact or within tolerance, every operation",
     ONE + "all test crystals are written in angstrom.",
     [R, A, S], [("length tolerances", R), ("volume ratios and tolerances", A), ("Structure::new, apply_transformation", S)],
     ["returned structures and groups of both executions"],
     "metamorphic monitor relating two executions",
     "Factors are powers of two, so that both inputs are the same crystal exactly.")

prop("C29", "Crystals written with seven decimals give the same answers",
     "Rounding all lattice and position numbers to seven or more decimals, as when a crystal is read from a text file, changes neither the number of sites of the primitive cell, nor the Niggli, conventional and standard primitive cells beyond that precision, nor the space group reported.",
     ["inputs"], "crystals of all Bravais types and all space-group types, in rotated, skewed and enlarged cells, 7 to 9 decimals",
     ONE + "the rounded and the exact crystal are never compared.",
     [R, A], [("reduction tolerance", R), ("lattice-character tolerance", A)],
     ["returned structures and groups of both executions"],
     "metamorphic monitor relating two executions",
     "With six decimals no difference is seen either, with five there are; the margin is a factor of ten or more.")

LEVEL = "exploration"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    built = set(open(os.path.join(V, "tools/built.txt")).read().split())
    man = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": [],
           "notes": "Black-box monitors; no hooks in /repo. See DESIGN.md. Replay a violation with: bash /verif/check.sh <id> quick --replay <path>"}
    for p in PROPS:
        if p["id"] not in built:
            man["not_applicable"].append({"property": p["id"], "reason": "monitor not built yet"})
            continue
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
            "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["_tech"], "level": LEVEL, "level_note": p["_note"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
