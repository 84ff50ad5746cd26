"""Per-property notes that go into the evidence files."""
COMMON_ASSUMPTIONS = [
    "malloc/realloc never fail; block identities are never reused",
    "64-bit arithmetic is treated as mathematical (32-bit arithmetic is exact, truncations are modelled)",
    "strict aliasing (typed heap); extents at most 2^30",
    "termination is not proved (partial correctness); the bounded runs use a time limit",
    "reads of the option and context structures are unchecked and unconstrained",
]
META = {}
T_PROOF = "contract-based deductive verification (weakest preconditions over clang's LLVM IR, z3)"
META["C01"] = dict(
    level="proof", technique=T_PROOF,
    note="21 functions of lib/math_support.c proved against full functional contracts (shape, every entry, frame, memory safety) for all inputs; the same contracts are also executed on the real library to produce failing inputs. 64-bit arithmetic is treated as mathematical; termination and allocation failure are out of scope.",
    explanation="Every editing operation's contract gives the new shape and each new entry as a function of the old entries, with a frame condition for everything else and bounds on every access.",
    bounded=[])
META["C02"] = dict(
    level="proof", technique=T_PROOF,
    note="gcd, lcm, product, lexicographic minimum, parallel/orthogonal tests and elimination proved for all inputs whose exact intermediates fit in 64 bits; row echelon form and rank: see bounded_only in the evidence.",
    explanation="Postconditions are stated with mathematical gcd, lcm, sums of products and truncating division; elementary lemmas on them are stated as assumptions in the spec.",
    bounded=["pluto_matrix_to_row_echelon and pluto_matrix_get_rank: bounded check on matrices up to 5 x 6 against exact rational elimination"],
    assumptions=["facts about gcd/lcm/truncating division used as lemmas (gcd(a,b)=gcd(|a|,|b|), gcd(a,0)=|a|, lcm(a,b)=a/gcd(a,b)*b, gcd(a mod b, b)=gcd(a,b))"])
META["C03"] = dict(
    level="proof", technique=T_PROOF,
    note="36 functions of lib/constraints.c proved against full functional contracts (extents, every coefficient, kinds, frame, memory safety) for all single systems without variable names; unions (lists) and variable names are covered by the executable contracts only. 64-bit arithmetic is treated as mathematical; termination and allocation failure are out of scope.",
    explanation="Each editing operation's contract gives the new number of rows and columns, each coefficient and each row's kind as a function of the old ones, that the storage is well formed (row pointers into the buffer, no overlap, recorded capacity really there), and that nothing else changes.",
    bounded=["unions of several systems and variable names: executable contracts on up to 3 systems of up to 5 columns", "printing and reading systems: not covered"],
    assumptions=["contracts are proved for systems with next == NULL and names == NULL; the loops and recursion over names and next are outside the proved precondition", "counting equalities is monotone (lemma by induction, assumed)"])
META["C04"] = dict(
    level="proof", technique=T_PROOF,
    note="Proved for all systems, at an arbitrary point: substitution of an equality (on its hyperplane a point satisfies the system exactly when its projection satisfies the result); Fourier-Motzkin elimination (the projection of every solution satisfies the result; conversely every combination of a lower and an upper bound that the result must contain is in it, so the result holds at exactly the points between all pairs of bounds); the choice between the two and the choice of the variable; simplification keeps the solution set; conversion to pure inequalities; the affine Farkas lemma (every combination of coefficients certified by non-negative multipliers satisfies the constraints returned). Projection of several variables and over unions are covered by executable contracts on the real library (bounded).",
    explanation="Solution sets are expressed by sums of products of a row with an arbitrary (homogeneous) point; a contract relates membership before and after at an arbitrary point, using lemmas on sums proved by induction on every run.",
    bounded=["project_out, eliminate_dims, unions, completeness of the Farkas step: executable contracts on random systems of up to 5 variables against exact rational reasoning"],
    assumptions=["64-bit arithmetic of coefficients is treated as mathematical"])
META["C05"] = dict(
    level="proof", technique=T_PROOF,
    note="Conversion of 64-bit integers to and from gmp, of systems to isl basic sets and maps and back, of unions to isl sets, emptiness, union, intersection and lexicographic minimum are proved exact for all inputs, at an arbitrary integer point, relative to assumed contracts for isl and gmp. Conversion of an isl set with several basic sets back to a union, and projection through isl, are decided by executable contracts (bounded).",
    explanation="isl objects are values named by handles: a matrix's entries, a set's membership predicate at a point. Postconditions say that a point satisfies the rows of the system exactly when it is a member of the isl object. A list of systems is described by a recursive membership predicate unfolded along the loop.",
    bounded=["isl_set_to_pluto_constraints with several basic sets (callback iteration), pluto_constraints_project_out_isl, in-place variants: executable contracts against isl's own parser and set equality, and point enumeration"],
    assumptions=["documented behaviour of the isl functions called (matrices, basic sets and maps, union, intersection, lexmin, emptiness, sample point) and of the gmp functions called", "isl_set_to_pluto_constraints returns a union with the same points (bounded check only) when its simplified form fits in 64 bits and has no integer divisions", "PipLib (absent here) decides feasibility", "equal rows have equal sums at a point; counting equalities is monotone; lists stay well formed when more blocks are allocated (inductions not mechanised)"])
META["C06"] = dict(
    level="proof", technique=T_PROOF,
    note="Graph construction and update from the dependences, transposition, undirected graph, transitive closure, adjacency, the depth-first searches, strongly connected components (two statements share a number exactly when they reach each other; components are numbered in topological order) and connected components are proved for all graphs.",
    explanation="Edge counts are the recursively defined number of unsatisfied non-read-read dependences; reachability is an uninterpreted relation with its closure properties, and the correctness of the two-pass component algorithm over finishing times is a lemma checked by Lean on every run (lemmas/Scc.lean).",
    bounded=["the same functions also run natively: all graphs on up to 3 vertices and random graphs up to 8 vertices, against reachability computed independently (search for failing inputs)"],
    assumptions=["every dependence's source and target are statement numbers of the program; flags are 0 or 1", "qsort sorts the vertices by the comparison function (libc)"])
META["C07"] = dict(
    level="proof", technique=T_PROOF,
    note="Insertion and removal of an iteration dimension (domain, names, marks, schedule, row kinds, accesses and both systems of every dependence together), insertion of a schedule level into a statement and into the program, padding, interchange of levels, separation of statements, and the dependence list bookkeeping are proved for all programs; adding, copying and removing statements and removing all padding dimensions are covered by the executable contracts only (bounded_only).",
    explanation="Contracts give every row of every schedule, the kinds of rows, tile-level markers and the level properties as functions of the old ones, with frame conditions for everything else.",
    bounded=["denormalize_domains, pluto_add_stmt, pluto_remove_stmt, pluto_stmt_dup, pluto_dep_dup, pluto_access_dup (these three also proved, in C14), pluto_make_innermost_loop, pluto_sink_statement: executable contracts on random programs with up to 4 statements"],
    assumptions=["schedules of the statements are distinct blocks; kinds of rows are a block of their own", "the two systems of a dependence are owned by it; accesses have their own matrices; iterator names are present"])
META["C10"] = dict(
    level="proof", technique=T_PROOF,
    note="The satisfaction test, the direction of a dependence at a level, the update, reset and computation of satisfaction levels and vectors and the all-satisfied check are proved for all programs over an assumed emptiness test; the precise (instance-wise) variant is covered by the executable contracts only. 64-bit arithmetic is treated as mathematical.",
    explanation="Each verdict is proved equal to emptiness of the dependence polyhedron with one row in front, whose coefficients are the difference of the schedule rows at the two ends; levels and vectors are proved to agree with these verdicts by loop invariants over all dependences and levels.",
    bounded=["pluto_compute_dep_satisfaction_precise, num_satisfied_deps, num_inter_scc_deps: executable contracts on random programs with up to 4 statements, against enumeration of integer points"],
    assumptions=["pluto_constraints_is_empty decides integer emptiness (isl; its conversions are C05)", "every family of rows is a system (the ghost value SYSD exists)", "dependences are distinct blocks; schedules have a row for every level; vectors are separate blocks owned by their dependences"])
META["C11"] = dict(
    level="proof", technique=T_PROOF,
    note="Parallel and permutable verdicts, the maximal permutable band, dominance and membership predicates, the kinds of levels and the loop/band constructors are proved for all programs; the recursive enumeration of loops and bands is covered by the executable contracts only.",
    explanation="A loop is proved parallel exactly when no recorded dependence between its statements is carried at its depth; a band's width is proved the largest for which every dependence satisfied at or inside it has no minus or star component.",
    bounded=["pluto_get_all_loops, pluto_get_loops_under, pluto_get_parallel_loops, pluto_get_dominator_parallel_loops, pluto_get_outermost_permutable_bands, pluto_get_innermost_permutable_bands, pluto_get_dominator_bands: executable contracts on random programs with up to 4 statements against an independent enumeration"],
    assumptions=["recorded satisfaction and direction vectors are those of C10; statement lists of a loop hold pointers to the program's statements"])
META["C12"] = dict(
    level="proof", technique=T_PROOF,
    note="cut_all_sccs, cut_between_sccs, cut_scc_dim_based, ddg_sccs_direct_connected and the insertion of a level into a statement and into the program are proved for all programs: the new row is the constant group position, all earlier rows and kinds are kept, satisfaction records and graph agree with the new level, and a cut that satisfies nothing is undone. The heuristics that choose a cut and the order of component numbers are covered by the executable contracts.",
    explanation="The position of a group is scc_id, 0/1 around the second component, or the number of changes of dimensionality before it; loop invariants give every row of every statement's schedule.",
    bounded=["cut_smart, cut_conservative and that component numbers increase along dependences (C06): executable contracts on random programs with up to 5 statements"],
    assumptions=["pluto_constraints_is_empty decides integer emptiness (C05)", "schedules of all statements have num_hyperplanes rows and nvar+npar+1 columns and are distinct blocks, apart from the graph's matrix", "pluto_transformation_print_level only prints"])
NA = {
    "C16": "The code generator's inputs (CLooG, pet, clan submodules) are absent here, tool/ does not build, and the emitted C is produced by those external libraries; no contract on code in reach expresses it.",
    "C17": "The model works on floating point and isl piecewise quasi-polynomials and promises an estimate; there is no exact postcondition to verify.",
    "C18": "The verifier treats code sequentially; the library has no synchronisation or shared mutable state of its own to put under an ownership contract beyond isl's contexts.",
}
META["C15"] = dict(
    level="proof", technique=T_PROOF,
    note="pluto_stmt_get_remapping and pluto_get_new_access_func are proved for all statements with a full-rank schedule, with the sums evaluated at an arbitrary iteration; the lemmas on sums are themselves proved by induction on every run. 64-bit arithmetic is treated as mathematical; divisors are assumed to fit in int.",
    explanation="Ghost: an arbitrary iteration X and its time T = trans*X. Invariant of the inversion: every row of the working matrix vanishes on (X, T, parameters, 1); at the end row k of the result applied to (T, parameters, 1) equals divisor_k * X_k, and the rewritten access applied to it equals divisor * (access applied to X).",
    bounded=["pluto_get_new_domain (out of reach: library stubs abort)"],
    assumptions=["the schedule has full column rank, so that a pivot exists in every step (the abort for singular schedules is excluded by this precondition)", "least common multiple: a and b divide lcm(a,b), which is positive for positive and non-zero for non-zero arguments", "divisors and their least common multiple fit in a C int", "pluto_matrix_print only prints"])
META["C14"] = dict(
    level="proof", technique=T_PROOF,
    note="pluto_constraints_get_const_lb/ub proved to return true bounds for every system over one variable; the copies that splitting hands to each piece (pluto_stmt_alloc, pluto_stmt_dup, pluto_access_dup, pluto_dep_dup) proved equal to their originals in domain, schedule, row kinds, loop marks, access functions and dependence systems, on storage of their own; the splitting itself (pluto_iss, pluto_update_deps_after_iss) is covered by the executable contracts only (bounded_only).",
    explanation="Ghost: an arbitrary 64-bit value of the variable that satisfies every row; the reported bound is proved not to cross it. The rounding lemma is proved on every run. The copies: every field and every coefficient of the copy equals the original's, and its storage is fresh, so restricting a piece changes nothing else.",
    bounded=["pluto_iss, pluto_update_deps_after_iss: executable contracts on random programs with up to 3 statements and random cuts, against enumeration of integer points"],
    assumptions=["systems over more than one variable need a projection that this build's library does not contain (it aborts)", "strdup returns a fresh string (its characters are not tracked)", "a statement, access or dependence is one unnamed system/matrix per field, as the library builds them"])
META["C09"] = dict(
    level="proof", technique=T_PROOF,
    note="Coefficient bounds, the non-triviality constraints (both modes), the largest constant of the domains and the way from a solution to schedule rows are proved for all programs, sharing one ghost definition of the column of each coefficient; the Farkas step itself is proved (certified coefficients satisfy the constraints), assembling its results into the legality and bounding constraints, linear independence and the solver wrapper are covered by the executable contracts (bounded_only).",
    explanation="scol(x, j) is the column of coefficient j of statement x; every contract gives each produced coefficient through it.",
    bounded=["compute_permutability_constraints_dep, get_permutability_constraints, get_feautrier_schedule_constraints, get_stmt_lin_ind_constraints, pluto_prog_constraints_lexmin: executable contracts on random programs with up to 3 statements and 3 dimensions, against enumeration of schedule coefficients and dependence instances"],
    assumptions=["pluto_matrix_get_rank returns a function of the entries of the matrix (that it is the rank: bounded check under C02)", "constants of domains fit in int", "number of columns below 2^26"])
META["C08"] = dict(
    level="proof", technique=T_PROOF,
    note="The wavefront rewrite (pluto_create_tile_schedule_band) and the diamond-tile rescheduling are proved for all programs and bands: the first level becomes the sum of itself and the documented inner levels, every other row is kept, and the recorded satisfaction is merged accordingly; pluto_update_deps is proved to add the given constraints, in the right columns, to exactly the dependences at whose ends the statement occurs, changing nothing else. Tile membership (pluto_tile_band and pluto_tile_scattering_dims) is covered by the executable contracts only (bounded_only).",
    explanation="Ghost: LDG(k) numbers the levels of the band that are loops of all its statements, WS(x, j, k) is the recursively defined sum of rows LDG(0..k) of statement x in the state before the call.",
    bounded=["pluto_tile_band, pluto_tile_scattering_dims, pluto_tile (and pluto_update_deps again): executable contracts on random programs with up to 3 statements, tile sizes 1 to 5 and two levels, against enumeration of integer points"],
    assumptions=["satisfaction vectors are separate blocks owned by their dependences", "statements of a band and their schedules are distinct blocks"])
META["C13"] = dict(
    level="proof", technique=T_PROOF,
    note="Proved for all programs: a dependence is recorded satisfied only when the level strictly orders all its instances, the all-satisfied and full-rank exit tests of the search are exact, the rows of a solution and the non-triviality constraints go to the right coefficients, cuts insert the documented constant rows, and the returned schedule map is the statement's schedule. That the search loop composes these into a legal complete schedule (pluto_auto_transform, pluto_transform, pluto_schedule) is covered by the executable contracts only (bounded_only).",
    explanation="The postconditions of the level-wise steps (C09, C10, C12) are re-verified here together with the two exit conditions of the search.",
    bounded=["pluto_auto_transform, pluto_schedule_prog, pluto_transform, pluto_schedule, pluto_schedule_str: random programs with up to 3 statements and option combinations; every dependence instance and every pair of iterations is enumerated and compared under the returned schedule"],
    assumptions=["pluto_constraints_is_empty decides integer emptiness (C05)", "pluto_matrix_get_rank returns the rank (C02)", "the integer solver (isl/PIP) returns a point of the system it is given"])
