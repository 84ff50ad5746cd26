import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
TESTS="The existing tests take the rank of a few 2x2 matrices and print the schedules of six fixed programs; "
p("C01","Matrix edits change exactly what they document",
 "Every matrix editing operation (allocate, duplicate, resize, insert or remove a row or column, append rows, negate, zero, fill, identity, interchange, move, swap or reverse rows and columns, compare) leaves a matrix of exactly the documented shape whose entries are exactly the documented function of the entries before. All entries it does not document as changed keep their full 64-bit values, its other operands are unmodified, and no access leaves the allocated storage.",
 ["inputs"],"all matrices of any shape and allocation slack, all valid positions, all 64-bit entry values",
 TESTS+"no test inspects entries after an edit, uses values beyond 32 bits, or edits at first/last positions of arbitrary shapes.",
 ["lib/math_support.c","lib/math_support.h","include/pluto/matrix.h"],
 [("in-place shifting loops","lib/math_support.c: pluto_matrix_{add,remove}_{row,col}, pluto_matrix_move_col"),("growth without losing entries","lib/math_support.c: pluto_matrix_resize"),("element-wise copies","lib/math_support.c: pluto_matrix_dup, pluto_matrix_add")],
 [("row table, extents and allocated extents","abstract value of a matrix","struct pluto_matrix")])
p("C02","Integer linear algebra helpers return exact results",
 "Products of matrices, greatest common divisors, least common multiples, lexicographic minimum, matrix rank, row-echelon reduction, elimination of a variable from a matrix, and the parallel/orthogonal row tests return the mathematically exact answer for every input whose exact intermediate values fit in 64 bits. Row reduction and rank leave the row space of their input represented exactly (rank equals the dimension of that space) and do not modify inputs documented as read-only.",
 ["inputs"],"all integer matrices and vectors of any shape whose intermediate values fit in 64 bits",
 TESTS+"two square 2x2 ranks are the only numeric results checked; wide, tall, zero-column and large-valued inputs are never reached.",
 ["lib/math_support.c"],
 [("triple loop product","lib/math_support.c: pluto_matrix_product"),("Euclid","lib/math_support.c: gcd, lcm"),("row echelon + non-zero row count","lib/math_support.c: pluto_matrix_to_row_echelon, pluto_matrix_get_rank"),("cross-multiplication and dot product","lib/math_support.c: pluto_vector_is_parallel, pluto_vector_is_normal")])
p("C03","Constraint-system edits keep every untouched constraint and coefficient",
 "Every editing operation on a system of affine constraints (allocate, copy, duplicate, resize, add an equality or inequality, append systems, insert/remove/interchange dimensions, remove or select a row, negate, fix a variable or bound it from below or above, shift a dimension, convert to and from a matrix or to inequalities only, append lists) yields exactly the documented rows, kinds (equality or inequality) and columns, for every disjunct of a union where documented. Everything not documented as changed is preserved exactly, other operands are unmodified, and no access leaves the allocated storage.",
 ["inputs"],"all constraint systems of any shape, slack and number of disjuncts, all valid positions and coefficients",
 TESTS+"constraint edits are exercised only indirectly, on few shapes, and a lost or misplaced coefficient usually changes no printed schedule.",
 ["lib/constraints.c","lib/constraints.h"],
 [("growth with zeroed tail","lib/constraints.c: pluto_constraints_alloc, pluto_constraints_resize_single"),("column insertion/removal over rows and disjuncts","lib/constraints.c: pluto_constraints_add_dim, pluto_constraints_remove_dim"),("row append","lib/constraints.c: pluto_constraints_add, add_inequality, add_equality, add_lb, add_ub, set_var")],
 [("coefficient rows, equality flags, extents, list link","abstract value: a union of systems of affine (in)equalities","struct plutoConstraints")])
p("C04","Simplifying and eliminating variables keeps the described set exact",
 "Simplifying, normalising or de-duplicating a constraint system never changes the set of points it describes. Eliminating variables (Fourier-Motzkin, Gaussian or mixed, one or many, in any order chosen by the elimination heuristic) produces a system over the remaining variables whose rational solutions are exactly the projection of the original rational solutions. The affine form of Farkas' lemma built on it accepts exactly the coefficient vectors whose affine form is non-negative on the given non-empty polyhedron.",
 ["inputs"],"all constraint systems, elimination positions and counts whose intermediate coefficients fit in 64 bits",
 TESTS+"none compares a system before and after elimination; a dropped or added constraint can leave all six printed schedules unchanged.",
 ["lib/constraints.c"],
 [("pairing of lower and upper bounds","lib/constraints.c: fourier_motzkin_eliminate"),("substitution of an equality","lib/constraints.c: gaussian_eliminate_var, pluto_constraints_gaussian_eliminate"),("dispatch","lib/constraints.c: fourier_motzkin_eliminate_smart, eliminate_var, pluto_constraints_project_out_single"),("Farkas multipliers then elimination","lib/constraints.c: farkas_lemma_affine")])
p("C05","Polyhedral set operations are exact",
 "Converting a constraint system or union of systems to and from the polyhedral library's integer sets preserves its integer points for every coefficient that fits in 64 bits. Emptiness, equality, union, intersection, difference, projection and lexicographic minimum return exactly the mathematical result for the integer sets described, without modifying operands documented as read-only.",
 ["inputs"],"all (unions of) constraint systems with 64-bit coefficients",
 TESTS+"no test calls a set operation directly or uses a coefficient wider than a few bits.",
 ["lib/constraints_isl.c","lib/constraints.c","lib/math_support.c","lib/isl_support.c"],
 [("row-by-row translation through isl matrices","lib/constraints_isl.c: isl_basic_set_from_pluto_constraints, isl_basic_set_to_pluto_constraints"),("64-bit to arbitrary precision","lib/math_support.c: mpz_set_sll; lib/isl_support.c"),("set algebra wrappers","lib/constraints_isl.c: pluto_constraints_{unionize,intersect,difference,is_empty,...}_isl")])
p("C06","Dependence-graph components match reachability",
 "For every program, two statements are placed in the same strongly connected component exactly when each is reachable from the other through unsatisfied non-read-read dependences, component numbers increase along every remaining dependence, and component membership lists and sizes agree with the numbering. Two statements are in the same connected component exactly when they are linked ignoring direction, edge counts equal the number of unsatisfied non-read-read dependences between the two statements, and transposition and transitive closure are exact.",
 ["inputs","programs"],"all programs/graphs of any number of statements and any dependence multiset",
 TESTS+"programs there have at most a handful of statements whose graph is a chain or one cycle; numbering errors on other shapes are unreachable.",
 ["lib/ddg.c","lib/ddg.h","lib/pluto.c"],
 [("two-pass depth-first search","lib/pluto.c: ddg_compute_scc; lib/ddg.c: dfs, dfs_for_scc, graph_transpose"),("undirected search","lib/pluto.c: ddg_compute_cc; lib/ddg.c: get_undirected_graph, dfs_for_cc"),("adjacency counts","lib/pluto.c: ddg_create, ddg_update")])
p("C07","Program bookkeeping stays consistent when dimensions and statements change",
 "Inserting or removing an iteration dimension or a schedule level, padding schedules to a common depth, adding, copying or removing statements, copying dependences, and interchanging schedule levels update the domain, iterator names, schedule rows and their types, access functions, dependence relations and statement numbering together, so that all of them still describe the same program in the same column order. Existing coefficients keep their values at their shifted positions, inserted ones are zero except where documented, and nothing else changes.",
 ["inputs","histories","programs"],"all programs (any number of statements, dependences, accesses, parameters), all valid insertion/removal positions and sequences of such operations",
 TESTS+"only whole runs are printed; a dependence relation or access function left in a stale column order is not observed.",
 ["lib/program.cpp","lib/program.h","lib/pluto.c","lib/transforms.c"],
 [("per-statement dimension insertion/removal","lib/program.cpp: pluto_stmt_add_dim, pluto_stmt_remove_dim"),("level insertion","lib/program.cpp: pluto_stmt_add_hyperplane, pluto_prog_add_hyperplane, pluto_pad_stmt_transformations"),("statement list maintenance","lib/program.cpp: pluto_add_stmt, pluto_remove_stmt, pluto_stmt_dup, pluto_dep_dup"),("level interchange","lib/transforms.c: pluto_interchange; lib/pluto.c: pluto_make_innermost_loop")])
p("C08","Tiling covers every iteration exactly once",
 "After tiling any permutable band with any positive tile sizes and any number of levels, every original iteration of every statement lies in exactly one tile, namely the one whose index is the floor of its original schedule value divided by the tile size, no iteration is lost or invented, and iterations keep their original intra-tile order. Dependence relations, access functions and schedules are extended consistently with the new tile dimensions, and the wavefront (tile-level skewing) rewrite changes the schedule only by an invertible combination of the tile levels it documents.",
 ["inputs","programs"],"all programs, permutable bands, tile sizes >= 1, tiling levels and schedule coefficients",
 TESTS+"tile membership of individual iterations is never enumerated; schedules are printed untiled or for one size.",
 ["lib/tile.c","lib/pluto.c"],
 [("tile-shape inequalities added to domains and dependences","lib/tile.c: pluto_tile_band, pluto_tile"),("wavefront","lib/tile.c: create_tile_schedule, create_tile_schedule_band")])
p("C09","The scheduling problem handed to the solver is exactly the legality problem",
 "For every dependence, the constraints generated on the unknown schedule coefficients hold exactly for the schedules under which the target never runs before the source for any instance of the dependence and the dependence distance is bounded by the bounding function; each coefficient occupies the column of its statement and dimension. Non-triviality, coefficient bounds, linear independence and the mapping of a solution back to schedule rows use the same columns, and solving after removal or permutation of redundant columns returns a solution of the original system that is lexicographically minimal in the original column order.",
 ["programs","inputs"],"all programs, dependences, statement counts, parameters and solver solutions",
 TESTS+"the six programs pin the printed schedule only; a misplaced column or a dropped constraint that still yields those schedules is invisible.",
 ["lib/framework.cpp","lib/pluto.c","lib/constraints.c"],
 [("Farkas form per dependence then placement in global columns","lib/framework.cpp: compute_permutability_constraints_dep, get_permutability_constraints, get_feautrier_schedule_constraints_dep"),("side constraints","lib/framework.cpp: get_non_trivial_sol_constraints, get_coeff_bounding_constraints, get_stmt_lin_ind_constraints"),("column removal and re-insertion","lib/pluto.c: pluto_prog_constraints_lexmin"),("solution to schedule rows","lib/framework.cpp: pluto_add_hyperplane_from_ilp_solution")])
p("C10","Dependence satisfaction verdicts and directions are exact",
 "A dependence is reported satisfied at a schedule level exactly when the target's schedule value is strictly greater than the source's there for every instance, and its direction at a level is zero, plus, minus or star exactly according to the signs that occur. The recorded satisfaction vector, level and count of satisfied dependences agree with these verdicts over all levels, and resetting clears them.",
 ["programs","inputs"],"all dependences, schedules and levels",
 TESTS+"satisfaction results are not printed or checked and the six programs contain only uniform or simple dependences.",
 ["lib/framework.cpp","lib/pluto.c"],
 [("emptiness of the violated half","lib/framework.cpp: dep_satisfaction_test, get_dep_direction, pluto_dep_satisfies_instance, pluto_dep_remove_satisfied_instances"),("aggregation","lib/pluto.c: dep_satisfaction_update, pluto_compute_satisfaction_vectors, pluto_compute_dep_satisfaction, pluto_compute_dep_directions; lib/framework.cpp: pluto_compute_dep_satisfaction_precise")],
 [("satisfied flag, level, satisfaction vector, direction vector","verdicts kept per dependence","struct dependence")])
p("C11","Loops reported parallel or permutable really are",
 "A loop is reported parallel only when no dependence between statements under it is carried at its level, and a band is reported permutable only when every dependence not already satisfied outside it has non-negative components at all its levels. The sets of all, outermost, innermost and dominating loops and bands contain exactly the loops and bands of the transformed program that fit the description, each with exactly its own statements.",
 ["programs"],"all transformed programs, levels and dependence direction/satisfaction tables",
 TESTS+"loop trees with several fused and distributed groups, scalar levels in the middle, or mixed dependence tables never occur.",
 ["lib/polyloop.c","lib/program.cpp","lib/pluto.c"],
 [("carried-dependence scan","lib/polyloop.c: pluto_loop_is_parallel, pluto_loop_is_parallel_for_stmt, pluto_satisfies_inter_stmt_dep"),("band growth","lib/polyloop.c: pluto_get_permutable_band, pluto_get_parallel_band"),("loop-tree recursion and domination filters","lib/polyloop.c: pluto_get_loops_under, is_loop_dominated, pluto_get_dominator_bands")])
p("C12","Distributing components respects the dependences",
 "When the scheduler separates groups of statements, it inserts one constant schedule level per separation in which every statement gets the position of its group, groups are ordered so that no dependence points backwards, and a separation is kept only when it satisfies at least one unsatisfied dependence. All other schedule levels, their coefficients and their types are unchanged, and the recorded dependence satisfaction agrees with the new level.",
 ["programs","histories"],"all programs, component structures, existing schedule prefixes and fusion modes",
 TESTS+"each of the six programs needs at most one separation.",
 ["lib/pluto.c","lib/program.cpp"],
 [("constant level per component","lib/pluto.c: cut_between_sccs, cut_all_sccs, cut_scc_dim_based, cut_smart, cut_conservative"),("explicit separation","lib/program.cpp: pluto_separate_stmt, pluto_separate_stmts")])
p("C13","Computed schedules are legal and complete",
 "For every program and every supported option setting, the schedule the library computes orders the source of every (non read-read) dependence instance strictly before its target, and maps distinct iterations of a statement to distinct schedule points. Schedules returned through the library interface describe the same iteration domains as the input.",
 ["programs","configurations"],"all programs with affine domains, accesses and dependences; all fusion/tiling/parallelisation option combinations of the library",
 TESTS+"the expected output is a fixed text for six programs; legality itself is never evaluated.",
 ["lib/pluto.c","lib/framework.cpp","lib/plutolib.c","lib/framework-dfp.c"],
 [("level-by-level search with satisfaction update","lib/pluto.c: pluto_auto_transform, find_permutable_hyperplanes"),("library entry points","lib/plutolib.c: pluto_transform, pluto_schedule")])
p("C14","Splitting an iteration domain loses and repeats no iteration",
 "When a statement's iteration domain is split by a set of hyperplanes, the pieces are pairwise disjoint and their union is exactly the original domain, every piece is given to a copy of the statement with the same schedule and accesses, and dependences between the copies cover exactly the instances of the original dependences. Constant lower and upper bounds derived from a constraint system are true bounds.",
 ["programs","inputs"],"all domains, cutting hyperplanes and dependences",
 TESTS+"no test enables index-set splitting.",
 ["lib/iss.c","lib/constraints.c"],
 [("pieces from half-space combinations","lib/iss.c: pluto_iss, pluto_update_deps_after_iss"),("constant bounds","lib/constraints.c: pluto_constraints_get_const_lb, pluto_constraints_get_const_ub")])
p("C15","Remapped accesses touch the same data",
 "For every full-rank schedule, the reverse mapping computed for a statement sends each schedule point back to the iteration it came from (after division by the reported divisors), and access functions rewritten through it address, for every iteration, exactly the array element of the original access. Transformed domains contain exactly the schedule points of the original iterations.",
 ["programs","inputs"],"all full-column-rank schedules (including tiled and skewed ones), accesses and iterations",
 TESTS+"no test evaluates a remapping or a rewritten access.",
 ["lib/program.cpp"],
 [("fraction-free inversion of the schedule","lib/program.cpp: pluto_stmt_get_remapping"),("composition","lib/program.cpp: pluto_get_new_access_func, pluto_get_new_domain, pluto_stmt_get_schedule")])
p("C16","Generated code computes what the source computed",
 "The C code emitted for a transformed program executes every statement instance of the input exactly once in schedule order.",
 ["programs"],"all programs accepted by the command-line tool",
 "Needs the polyhedral code generator and the source-to-source driver, neither of which is built here.",
 ["tool/main.cpp","tool/pluto_codegen_if.c","tool/ast_transform.c"],[("CLooG scattering and AST post-processing","tool/pluto_codegen_if.c, tool/ast_transform.c")])
p("C17","Selected tile sizes fit the cache model",
 "Tile sizes chosen by the automatic model keep the estimated tile footprint within the configured cache size.",
 ["programs","configurations"],"all tiled programs and cache sizes",
 "The tests never enable the tile size model.",
 ["lib/tile_size_selection_model.cpp"],[("footprint polynomial and root finding","lib/tile_size_selection_model.cpp: find_tile_sizes")])
p("C18","Independent contexts do not interfere across threads",
 "Two threads scheduling different programs with different contexts obtain the same results as when run one after the other.",
 ["schedules"],"all interleavings of two library calls on distinct contexts",
 "The tests are single-threaded.",
 ["lib/plutolib.c","lib/pluto.c"],[("per-context options and isl contexts","include/pluto/pluto.h: PlutoContext")])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
