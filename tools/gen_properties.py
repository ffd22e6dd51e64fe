#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": hook or None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

C="trajopt_common/"; S="trajopt_sco/"; I="trajopt_ifopt/"; Q="trajopt_optimizers/trajopt_sqp/"; T="trajopt/"; V="trajopt_ext/vhacd/"

# ------------------------------------------------------------------ SQP solver
prop("Q01","SQP merit never worsens at fixed penalties and the best point is returned",
 "While the penalty weights are unchanged, the best merit the solver reports (sum of exact costs plus penalty-weighted exact constraint violations) never increases: a QP step replaces the best point only if its exact merit is not worse and the ratio of exact to predicted improvement reaches the configured threshold, otherwise the best point is kept and the trust region shrinks. The costs, violations, merit and variable values reported as best always belong to one and the same point, and that point is what the problem's variables hold when the solve ends and at every callback.",
 ["histories","inputs"],"every sequence of QP outcomes (solved/failed, better/worse/equal, good/bad prediction), callback answers and penalty rounds up to the depth bound",
 "Tests run a few well-behaved problems; bookkeeping slips show up only for particular accept/reject/penalty orders.",
 [Q+"src/trust_region_sqp_solver.cpp",Q+"include/trajopt_sqp/types.h"],
 [("step acceptance",Q+"src/trust_region_sqp_solver.cpp runTrustRegionLoop"),("merit evaluation",Q+"src/trust_region_sqp_solver.cpp solveQPProblem, constraintMeritCoeffChanged")],
 "results structure, problem variables and QP data seen by a scripted problem/solver pair",
 [("best/new results","best and candidate point with merits",Q+"include/trajopt_sqp/types.h SQPResults")])
prop("Q02","SQP termination status is truthful",
 "A solve always ends, and its status tells why: converged is reported only when every best constraint violation is below the tolerance (or there are no constraints); iteration, time and penalty-round limits are reported only when that limit was reached with violations remaining, and no new convexification starts once the iteration or time limit is reached; a callback that answers stop ends the solve at once with the stopped-by-callback status; and when the QP solver fails more often in one trust-region pass than allowed the solve ends with the QP-failed status.",
 ["histories","fault_sequences","configurations"],"every sequence of QP outcomes, QP failures, callback answers and clock readings up to the depth bound, for several limit settings",
 "Tests use converging problems and never inject QP failures, callback stops or clock jumps.",
 [Q+"src/trust_region_sqp_solver.cpp"],
 [("status decision",Q+"src/trust_region_sqp_solver.cpp solve, stepSQPSolver, runTrustRegionLoop, verifySQPSolverConvergence")],
 "status returned after the solve, number of QP calls and convexifications")
prop("Q03","Trust region and penalty updates follow the configured rules",
 "Each rejected or failed step multiplies the trust box by the shrink ratio and each accepted step by the expand ratio, the last permitted QP failure sets it to the minimum size, and a penalty round multiplies by the increase ratio the weight of exactly the constraints still violated beyond tolerance (all constraints when individual inflation is off) and re-opens the box to at least 1.5 times minimum over shrink ratio. Every QP handed to the QP solver uses the current box, current penalty weights and the most recent convexification, and every number of rounds respects the configured limits.",
 ["histories","fault_sequences","configurations"],"every sequence of QP outcomes and failures up to the depth bound, for several parameter settings",
 "A stale box, weight or matrix handed to the QP solver still converges on the sampled problems.",
 [Q+"src/trust_region_sqp_solver.cpp"],
 [("box and penalty updates",Q+"src/trust_region_sqp_solver.cpp runTrustRegionLoop, adjustPenalty, setBoxSize"),("QP refresh",Q+"src/trust_region_sqp_solver.cpp stepSQPSolver")],
 "every call the solver makes on a scripted problem and a recording QP solver")
# ------------------------------------------------------------------ QP assembly
prop("Q04","Assembled QP is the penalised linearisation of the nonlinear problem",
 "After convexification at any point, the QP consists of: the exact Gauss-Newton quadratic of the weighted squared costs; for every constraint row and every hinge or absolute-value cost row its linearisation at the current point with the bounds shifted accordingly and with slack variables (one for a one-sided row, two for an equality row) that are non-negative and priced at row weight times the constraint's current penalty weight (row weight alone for costs); and the variable box. So for every choice of variables the least objective over the slacks equals the linearised penalised objective up to one constant.",
 ["inputs","configurations","histories"],"every combination of term kinds, bound types, weights, dynamic row counts (including zero) and expansion points in the bounded grid, including repeated convexification at different points",
 "Row/slack/weight index arithmetic depends on which kinds of terms are mixed; tests use one or two terms with fixed sizes.",
 [Q+"src/trajopt_qp_problem.cpp",Q+"src/expressions.cpp"],
 [("assembly",Q+"src/trajopt_qp_problem.cpp convexify, update"),("setup",Q+"src/trajopt_qp_problem.cpp setup")],
 "Hessian, gradient, constraint matrix and bounds accessors")
prop("Q05","Exact and convexified costs and violations agree with their definitions",
 "For the trajectory QP problem the exact cost of a term is its row-weighted squared, absolute or hinge bound error, and the exact violation of a constraint is the summed distance of its values outside their bounds; the convexified cost and violation of each term are the same quantities applied to the term's linearisation, so they coincide with the exact ones at the expansion point. The per-term entries appear in the order of the reported term names, and totals are their sums.",
 ["inputs","configurations"],"every combination of term kinds, bound types, weights, dynamic row counts, expansion points and evaluation points in the bounded grid",
 "Agreement must hold at every point and for every mix of terms; tests evaluate single terms with unit weights.",
 [Q+"src/trajopt_qp_problem.cpp",I+"src/utils/ifopt_utils.cpp"],
 [("exact evaluation",Q+"src/trajopt_qp_problem.cpp getExactCosts, getExactConstraintViolations"),("convex evaluation",Q+"src/trajopt_qp_problem.cpp evaluateConvexCosts, evaluateConvexConstraintViolations")],
 "cost/violation accessors of the QP problem")
prop("Q06","A QP problem's answers do not depend on its past",
 "Whatever sequence of moving variables, convexifying, resizing the box, changing penalty weights, adding terms and running setup a QP problem has gone through, every accessor (QP matrices, bounds, costs, violations, names, sizes) returns what a freshly built problem with the same terms, point, box and weights returns. This includes terms whose number of rows changes between convexifications.",
 ["histories"],"every operation sequence over the alphabet up to the depth bound",
 "Caching and size bookkeeping errors appear only after particular operation orders.",
 [Q+"src/trajopt_qp_problem.cpp",Q+"src/ifopt_qp_problem.cpp"],
 [("incremental update",Q+"src/trajopt_qp_problem.cpp update, setVariables, setup"),("setup",Q+"src/ifopt_qp_problem.cpp setup")],
 "accessors of both QP problem classes")
prop("Q07","The trust box never leaves the variable limits and is never empty",
 "For every variable value (inside or outside its limits), box size and limits, the variable rows of the QP bound each variable to the intersection of its limits with the box around the value clamped into the limits: the interval is non-empty, lies within the limits, and contains the current value whenever that is within the limits. Changing the box or the variables takes effect on the QP at the next box update or convexification.",
 ["inputs","histories"],"every combination of lower/upper limit (including infinite and equal), value and box size in the grid, reached through every route that changes the box, on both QP problem classes",
 "Corner cases (value outside limits, equal or one-sided limits, box larger than range) are not combined by the tests.",
 [Q+"src/trajopt_qp_problem.cpp",Q+"src/ifopt_qp_problem.cpp"],
 [("box",Q+"src/trajopt_qp_problem.cpp updateNLPVariableBounds"),("box",Q+"src/ifopt_qp_problem.cpp updateNLPVariableBounds")],
 "QP bound vectors")
prop("Q08","Affine and quadratic row expressions are exact",
 "An affine row expression built from values and Jacobian at a point reproduces the values at that point and the Jacobian everywhere; a quadratic one built from values, Jacobian and Hessians reproduces the function's second-order expansion at every point; and squaring an affine expression with non-negative weights yields rows and summed objective coefficients that evaluate to the weighted square of the affine value at every point.",
 ["inputs"],"every small system (rows, variables, sparsity patterns, coefficient values, weights including zero, points) in the grid, with result objects reused across different sizes",
 "Tests use one row of two variables with nonzero entries.",
 [Q+"src/expressions.cpp",Q+"include/trajopt_sqp/expressions.h"],
 [("construction and squaring",Q+"src/expressions.cpp AffExprs::square, QuadExprs::create, values")],
 "expression values and coefficients")
prop("Q09","The generic NLP-to-QP adapter linearises correctly",
 "For the generic adapter, after convexification at any point the QP matrix and bounds describe the linearised constraints with non-negative slacks priced at the penalty weights, Hessian and gradient are the weighted Gauss-Newton model of the squared costs, and exact and convexified constraint violations are the distances of the (linearised) values outside their bounds. Every per-row violation and per-term cost entry appears in the order of the reported names, the convexified and exact cost of every term agree at the expansion point and totals are the sums over the terms; the quadratic objective has the slope of the exact total cost there. Terms it cannot represent (row-changing terms, hinge costs) are refused and leave no trace.",
 ["inputs","configurations"],"every combination of cost and constraint sets, bound types, weights and points in the grid",
 "Tests use one squared cost; row and slack ordering across several mixed sets is not sampled.",
 [Q+"src/ifopt_qp_problem.cpp"],
 [("assembly",Q+"src/ifopt_qp_problem.cpp convexify and update functions")],
 "Hessian, gradient, constraint matrix, bounds and evaluation accessors")
prop("Q10","OSQP is asked to solve exactly the QP last handed over, and starts from the present variables",
 "After any sequence of handing over problems, replacing their Hessian, gradient, constraint matrix or bounds, solving and clearing, the problem the OSQP library is asked to solve by the SQP solver's OSQP interface is the one last handed over (bounds beyond OSQP's infinity mean unbounded, tiny gradient entries may be dropped); success, solver status and solution are reported as the library gives them, also after earlier failures. A problem newly handed over is started from the present variables together with non-negative slack values that satisfy every slack row, if warm starting is on.",
 ["histories","fault_sequences","inputs"],"every operation sequence over the alphabet up to the depth bound with library answers and refusals; the starting point for every small problem at every expansion point",
 "This file is not compiled by most test runs; an update in place only goes wrong for particular successions.",
 [Q+"src/osqp_eigen_solver.cpp"],
 [("OSQP interface",Q+"src/osqp_eigen_solver.cpp")],
 "calls received by a stand-in OsqpEigen library, return values and status")
prop("Q11","A convex problem is solved to its optimum, whatever was solved before",
 "Given a QP solver that solves its QPs, the SQP solver ends on every problem made of linear terms (constraints, squared, absolute and hinge costs) at a point whose merit is the least one, up to what the improvement threshold allows; a feasible problem is reported converged with its constraints satisfied (unless the penalties, raised as often as allowed, are still too small), an infeasible one is not. On problems with curved terms a converged run within its iteration limits ends where the linearised problem promises no improvement within the trust box. The problem is left at the reported result, which respects the variable limits, and using one solver for several problems one after the other gives the results of a new solver.",
 ["inputs","histories"],"every tuple of terms of the catalogue up to the size bound, with every start, limits and parameter set of the grid; every ordered pair or triple of problems for one solver",
 "Tests solve a handful of problems, each with a solver of its own.",
 [Q+"src/trust_region_sqp_solver.cpp",Q+"src/trajopt_qp_problem.cpp",Q+"src/ifopt_qp_problem.cpp",Q+"src/osqp_eigen_solver.cpp"],
 [("solver",Q+"src/trust_region_sqp_solver.cpp solve"),("re-initialisation",Q+"src/trust_region_sqp_solver.cpp stepSQPSolver")],
 "status, results and final variables")
# ------------------------------------------------------------------ IFOPT
prop("I01","Nonlinear problem evaluation aggregates its parts faithfully",
 "For any ordered collection of variable, constraint and cost sets, the problem reports constraint values, bounds and Jacobian rows of each set stacked in the order the sets were added with each entry in the column of its variable, a total cost equal to the sum over all cost sets and the gradient of that total. Evaluating at a point given by the caller sets the variables to exactly that point before anything is computed.",
 ["inputs","configurations"],"every collection of up to the bounded number of sets with row counts from zero up, and evaluation points in the grid, evaluated in every order",
 "Offsets depend on the mix and order of sets; tests use one set.",
 [I+"src/core/problem.cpp",I+"src/core/composite.cpp",I+"src/core/constraint_set.cpp",I+"src/core/cost_term.cpp"],
 [("aggregation",I+"src/core/composite.cpp, problem.cpp")],
 "problem evaluation functions")
prop("I02","Numerical derivatives are accurate and leave the variables untouched",
 "The numerical Jacobian and gradient helpers return, for every function that is linear in the variables, its exact derivative up to rounding, place each entry in the row and column of the differentiated component and variable, and leave the problem's variables exactly at the values they had (or were asked to be evaluated at) before the call.",
 ["inputs"],"every small function (all coefficient patterns), starting point and step in the grid",
 "Tests compare one function at one point and do not look at the variables afterwards.",
 [I+"src/utils/numeric_differentiation.cpp",I+"src/utils/ifopt_utils.cpp",S+"src/num_diff.cpp"],
 [("forward differences",I+"src/utils/ifopt_utils.cpp calcNumerical*"),("forward differences",S+"src/num_diff.cpp")],
 "returned matrices and variable values after the call")
prop("I03","Bound classification, violations and projection obey interval semantics",
 "Every pair of limits is classified as unbounded, lower, upper, range or equality according to which limits are finite and whether they coincide; the violation of a value is its distance to the interval, the signed error is the value minus its nearest point of the interval, and projecting a vector changes exactly the entries outside their interval, to the nearest limit. Violations are zero exactly for values within the limits.",
 ["inputs"],"every pair of limits and every value from a grid of finite, huge, infinite, equal and nearly equal numbers, for vectors of several lengths",
 "Tests sample a few pairs; infinite, near-equal and reversed-sign cases interact.",
 [I+"src/core/bounds.cpp",I+"include/trajopt_ifopt/core/bounds.h",I+"src/utils/ifopt_utils.cpp"],
 [("classification",I+"src/core/bounds.cpp"),("violations and projection",I+"src/utils/ifopt_utils.cpp")],
 "returned classifications, errors, violations and vectors")
prop("I04","Joint terms measure what they claim for every trajectory and weighting",
 "Joint position, velocity, acceleration and jerk constraints report for every trajectory, every contiguous selection of waypoints and every valid weighting (none, one shared or one per joint) the waypoint value or finite difference of the given order in waypoint-major rows with the given targets or bounds and the weight of the right joint, and their Jacobian is exactly the derivative of these values with entries in the columns of the right waypoint and joint. Splitting a range bound into two one-sided rows preserves values, weights and the feasible set.",
 ["inputs","configurations"],"every number of waypoints and joints up to the bound, every weighting form, every bound kind and both range-handling modes, trajectories from a grid spanning the space",
 "Tests use a fixed number of waypoints and joints with full weight vectors.",
 [I+"src/constraints/joint_position_constraint.cpp",I+"src/constraints/joint_velocity_constraint.cpp",I+"src/constraints/joint_acceleration_constraint.cpp",I+"src/constraints/joint_jerk_constraint.cpp"],
 [("values and Jacobians",I+"src/constraints/joint_*_constraint.cpp")],
 "values, bounds, coefficients and Jacobian accessors")
prop("I05","Trajectory variables keep one consistent layout",
 "For any arrangement of nodes and named variables, each variable occupies one contiguous, unique block of the full variable vector in declaration order; setting the full vector makes every variable report exactly its block, reading it back returns the same vector, names and bounds line up with it, and every registered observer is notified on each change of values. The state fingerprint used for caching changes when any entry changes and is equal for equal values.",
 ["inputs","histories","configurations"],"every arrangement of nodes, variables and sizes up to the bound and every sequence of updates up to the depth bound",
 "Tests use uniform nodes with one variable.",
 [I+"src/variable_sets/nodes_variables.cpp",I+"src/variable_sets/node.cpp",I+"src/variable_sets/var.cpp",I+"src/variable_sets/nodes_observer.cpp"],
 [("layout and update",I+"src/variable_sets/nodes_variables.cpp")],
 "values, names, bounds, indices and observer calls")
prop("I06","Squared and absolute cost wrappers value and differentiate correctly",
 "A squared (absolute) cost wrapped around any constraint set has as value the weighted sum of squared (absolute) bound errors of the wrapped rows and as Jacobian the exact derivative of that value wherever it is differentiable; values within bounds contribute nothing. Weights given explicitly are applied row by row.",
 ["inputs"],"every row count, bound kind, weight vector, coefficient pattern and point in the grid",
 "Tests use a single one-row equality constraint at one point.",
 [I+"src/costs/squared_cost.cpp",I+"src/costs/absolute_cost.cpp"],
 [("value and gradient",I+"src/costs/*.cpp")],
 "cost value and Jacobian")
prop("I07","Collision constraints reflect the contacts at the current joint values",
 "After every change of the joint values and update, a collision constraint's rows, values, coefficients and Jacobian are those of the contacts the collision checker reports for exactly the current joint values: the same as for a constraint that has never seen any other values, whatever values were visited before. The contacts between one pair of shapes share a row, contacts between different shapes never do. With more contacts than rows the rows hold the contacts of largest error; unused rows of a fixed-size constraint read as not in contact with zero gradient.",
 ["histories"],"every sequence of joint-value changes and updates up to the depth bound (longer than the result cache), for contact sets of differing size",
 "Results are cached and reused across iterations; a stale or aliased entry needs a particular visit order.",
 [I+"src/constraints/collision/discrete_collision_constraint.cpp",I+"src/constraints/collision/continuous_collision_constraint.cpp",I+"src/constraints/collision/weighted_average_methods.cpp",C+"include/trajopt_common/cache.h"],
 [("cached evaluation",I+"src/constraints/collision/*_collision_constraint.cpp update")],
 "values, coefficients, bounds and Jacobian of the constraint over a scripted collision checker")
# ------------------------------------------------------------------ common
prop("C01","The result cache behaves as a bounded least-recently-used map",
 "For every sequence of operations the cache returns, for a key that was stored and not since erased or evicted, exactly the object stored for it, and a miss otherwise; it evicts only when no free slot remains and then the least recently used key; an object handed out for filling is never handed out again nor changed until it is stored, and the reported size and capacity match the number of stored keys and slots.",
 ["histories"],"every sequence of get, get-or-acquire, put and erase over a small key set and all capacities up to the bound, to the depth bound",
 "Unit tests exercise selected sequences; slot recycling errors need particular interleavings of eviction, erasure and outstanding objects.",
 [C+"include/trajopt_common/cache.h"],[("slot bookkeeping",C+"include/trajopt_common/cache.h")],
 "results of cache operations")
prop("C02","Array, slicing and interpolation helpers address the right elements",
 "Row, column and block extraction from the two-dimensional array, flattening, index selection and flag-to-index conversion return exactly the addressed elements in order; piecewise-linear interpolation returns the tabulated rows at the table points and the convex combination of the two neighbouring rows between them, clamping outside.",
 ["inputs"],"every array size, block start and length, index list and query position up to the bound",
 "No tests exist for these helpers.",
 [C+"include/trajopt_common/basic_array.hpp",C+"include/trajopt_common/interpolation.hpp",C+"include/trajopt_common/eigen_slicing.hpp",C+"include/trajopt_common/vector_ops.hpp"],
 [("indexing",C+"include/trajopt_common/basic_array.hpp"),("interpolation",C+"include/trajopt_common/interpolation.hpp")],
 "returned elements")
prop("C03","Collision weights, filtering and worst-case bookkeeping are order independent",
 "Pair weights are found regardless of the order of the two names with the default for unset pairs, and the set of zero-weight pairs is exactly the pairs whose current weight is zero, after any sequence of settings. A set of contact gradients reports as its maxima the largest error over contributing links for start, end and both, independent of insertion order, and the averaged gradient is the error-weighted mean of the contributing gradients; filtering keeps exactly the contacts within margin plus buffer that depend on a free timestep. Different shapes and subshapes of a link have different grouping keys.",
 ["histories","inputs"],"every sequence of weight settings and every small multiset of contact results over the grid of types, errors and fixed flags",
 "The combinations of link, time and sign of error are many; tests cover only a few robot scenes.",
 [C+"src/collision_types.cpp",C+"src/collision_utils.cpp",I+"src/constraints/collision/weighted_average_methods.cpp"],
 [("pair table",C+"src/collision_types.cpp CollisionCoeffData"),("maxima",C+"src/collision_types.cpp GradientResultsSet"),("average",I+"src/constraints/collision/weighted_average_methods.cpp")],
 "accessor results")
# ------------------------------------------------------------------ legacy sco
prop("S01","Symbolic expression algebra is exact",
 "Adding, subtracting, scaling, multiplying and squaring affine and quadratic expressions, in any composition, gives expressions whose value at every point is the same arithmetic applied to the operands' values; clean-up and simplification change no value by more than the documented tolerance.",
 ["programs","inputs"],"every expression program up to the size bound over a small variable set and coefficient grid, including repeated and cancelling variables, evaluated at every point of a grid",
 "Tests evaluate a few fixed expressions; aliasing, duplicates and cancellation matter.",
 [S+"src/expr_ops.cpp",S+"include/trajopt_sco/expr_ops.hpp",S+"src/solver_interface.cpp"],
 [("operators",S+"src/expr_ops.cpp, expr_ops.hpp"),("evaluation",S+"src/solver_interface.cpp value")],
 "expression values")
prop("S02","Expressions survive conversion to solver matrices",
 "Converting affine constraint lists and quadratic objectives to dense or sparse matrices and to compressed-column arrays preserves, at every point, the value of the expression: each coefficient lands at its variable's index, duplicates are summed, the constant goes to the right-hand side with the documented sign, the quadratic form is symmetric (or its requested triangle), and a term of a variable outside the given number of variables is refused.",
 ["inputs"],"every small expression list with repeated, cancelling and missing variables, matrix options and points in the grid",
 "Tests convert four examples.",
 [S+"src/solver_utils.cpp",S+"include/trajopt_sco/solver_utils.hpp"],
 [("conversion",S+"src/solver_utils.cpp, solver_utils.hpp")],
 "matrix entries")
prop("S03","The QP sent to the bundled solver is exactly the model as edited",
 "After any sequence of adding and removing variables, equality and inequality constraints, changing variable bounds and setting objectives, the problem transmitted to the bundled solver process has exactly the current variables with their current bounds, exactly the current constraints and the current objective, and the solution and solver status are attributed back to the right variables and reported as they are. A handle to a surviving variable or constraint keeps denoting the same object.",
 ["histories"],"every edit sequence over the alphabet up to the depth bound, with solves in between",
 "Index compaction after removals depends on the edit order; tests edit one model in one way.",
 [S+"src/bpmpd_interface.cpp",S+"src/solver_interface.cpp",S+"include/trajopt_sco/bpmpd_io.hpp"],
 [("model bookkeeping",S+"src/bpmpd_interface.cpp addVar, removeVars, removeCnts, update, optimize")],
 "bytes exchanged with a stand-in solver process")
prop("S04","The QP handed to the OSQP backend is exactly the model as edited",
 "After any sequence of model edits and solves, the problem the OSQP backend is asked to solve, whether through a fresh workspace or an in-place update, is exactly the current model: same variables, bounds, constraints and objective. Solver status and solution are reported faithfully, and a failed set-up or update never lets a stale problem be solved.",
 ["histories","fault_sequences","configurations"],"every edit/solve sequence over the alphabet up to the depth bound, with and without workspace reuse, with library failures injected",
 "Workspace reuse only goes wrong for particular successive sparsity patterns; OSQP is not available to most test runs.",
 [S+"src/osqp_interface.cpp"],
 [("workspace reuse",S+"src/osqp_interface.cpp createOrUpdateSolver, updateObjective, updateConstraints")],
 "calls received by a stand-in OSQP library")
prop("S05","Solver messages survive fragmented and interrupted transfers",
 "A problem or solution written to and read from the solver pipe arrives bit-identical however the operating system splits the transfer (short reads, short writes, interruptions), for every size of data including empty vectors; a peer that closes early is reported as an error and never taken as data.",
 ["fault_sequences"],"every placement of short transfers and interruptions within the message for every message of the bounded set, and every early-close point",
 "Fragmentation depends on pipe capacity, load and signals; tests see whole transfers only.",
 [S+"include/trajopt_sco/bpmpd_io.hpp",S+"src/bpmpd_caller.cpp"],
 [("serialisation",S+"include/trajopt_sco/bpmpd_io.hpp ser")],
 "decoded messages under an interposed read/write")
prop("S06","A QP reported solved is solved",
 "For every convex QP over bounded variables, the bundled solver backend's answer when it reports solved satisfies all bounds and constraints and has an objective no larger than that of any feasible point (to solver tolerance); an infeasible problem is never reported as solved.",
 ["inputs"],"every small QP/LP over the coefficient grid (objective, equalities, inequalities, bounds), compared with exhaustive active-set enumeration",
 "Tests solve four fixed problems.",
 [S+"src/bpmpd_interface.cpp",S+"src/bpmpd_caller.cpp",S+"include/trajopt_sco/bpmpd_io.hpp"],
 [("problem translation",S+"src/bpmpd_interface.cpp optimize")],
 "status and solution vector")
prop("S07","Convex models of user functions are tangent to the function",
 "The convex cost and constraint models built from user functions (with numerical or analytic derivatives; squared, absolute and hinge penalties) equal the exact penalised function at the expansion point and have its first-order behaviour there, for every non-negative weighting; for linear functions the model equals the exact function everywhere.",
 ["inputs","configurations"],"every small user function of the grid, derivative mode, penalty kind, weights and expansion points",
 "Tests optimise a few problems to convergence, which hides wrong weights and signs.",
 [S+"src/modeling_utils.cpp",S+"src/num_diff.cpp",S+"src/modeling.cpp"],
 [("convexification",S+"src/modeling_utils.cpp convex")],
 "value of convex and exact models")
prop("S08","Temporary convex terms leave the model exactly as they found it",
 "Adding any collection of convex objective and constraint terms to a model and later destroying them, in any order and also without solving in between, restores the model to exactly its previous variables and constraints; a maximum, hinge or absolute-value term contributes its defining value to the minimised objective.",
 ["histories"],"every sequence of building, adding and destroying terms over the alphabet up to the depth bound",
 "Leaks accumulate silently over iterations; tests do not count variables.",
 [S+"src/modeling.cpp",S+"include/trajopt_sco/modeling.hpp"],
 [("auxiliary variables",S+"src/modeling.cpp ConvexObjective, ConvexConstraints")],
 "variables and constraints of the model, minimised objective")
prop("S09","Start points and bounds of an optimisation problem are respected",
 "Variable bounds set on a problem are reported for the right variables; projecting a point onto the feasible box and linear constraints returns the nearest feasible point, which is the point itself if it already is feasible, and with a clearance margin keeps every coordinate within its bounds whenever the bounds leave room for the margin.",
 ["inputs","histories"],"every combination of bounds, margins and points in the grid and every order of bound updates",
 "Tests never project points outside the bounds.",
 [S+"src/modeling.cpp"],[("projection",S+"src/modeling.cpp OptProb::getClosestFeasiblePoint")],
 "returned points")
prop("S10","Solver choice by name selects that solver",
 "For every supported solver the textual name and the solver it denotes correspond: converting a solver to text and back is the identity, naming a solver (in code or through the environment) selects that solver, unknown names are rejected, and a solver not compiled in is never reported available.",
 ["configurations"],"all solver kinds, all names and all values of the selection environment variable",
 "Tests do not exercise the name table.",
 [S+"src/solver_interface.cpp",S+"include/trajopt_sco/solver_interface.hpp"],
 [("name table",S+"src/solver_interface.cpp ModelType")],
 "conversion functions and created model type")
prop("S11","Legacy trust-region optimiser keeps its progress and status promises",
 "In the legacy optimiser, with one or several threads, every QP is built from the costs and constraints convexified at the current point with the current penalty weights, inside the variable bounds and the trust region around that point. At fixed penalty weights the exact merit never increases; a step is taken exactly when the QP predicts a sufficient improvement, the exact merit does not get worse and the improvement ratio reaches the threshold, after which the trust region grows, and otherwise it shrinks. Penalty weights grow only between subproblems with a constraint still violated (with individual inflation, only those of violated constraints). The reported point, cost values, violations and counters belong together, and the status is converged only if all constraint violations are within tolerance. Iteration, penalty and time limits and repeated QP failures end the run with the corresponding status, and problems with log files do not end it.",
 ["histories","fault_sequences","configurations"],"every sequence of QP outcomes, exact outcomes, failures and clock readings up to the depth bound, over parameter sets",
 "Tests run a few convergent problems.",
 [S+"src/optimizers.cpp"],[("main loop",S+"src/optimizers.cpp BasicTrustRegionSQP::optimize")],
 "results and calls on scripted costs, constraints and a recording solver model")
prop("S12","Bundled-solver model wrapper releases what it holds and survives failures",
 "When the solver process cannot be started, dies, or closes the connection at any point of the exchange, the backend reports failure (status or exception) in bounded time instead of hanging or returning made-up values, and a later solve with a healthy process works.",
 ["fault_sequences"],"every point of the exchange at which the solver process stops or misbehaves",
 "Tests never kill the solver process.",
 [S+"src/bpmpd_interface.cpp",S+"include/trajopt_sco/bpmpd_io.hpp"],[("process handling",S+"src/bpmpd_interface.cpp fexecve/pipe handling")],
 "status of solves with a failing stand-in process")
prop("S13","The problem qpOASES is asked to solve is the model as edited, and a failed hot start is made up for",
 "After any sequence of model edits and solves, the problem the qpOASES back end hands to its library is exactly the current model: same variables, bounds, constraints and objective, in well-formed matrices. A hot start that fails for any reason is followed by one start from scratch with the full work limit; status and solution are reported as the library gives them and every variable gets its own value; library objects are released.",
 ["histories","fault_sequences"],"every edit/solve sequence over the alphabet up to the depth bound, and every sequence of library endings with edits between them",
 "qpOASES is not available to most test runs; hot starts fail only for particular successions of problems.",
 [S+"src/qpoases_interface.cpp",S+"src/solver_utils.cpp"],
 [("back end",S+"src/qpoases_interface.cpp optimize, updateObjective, updateConstraints")],
 "calls received by a stand-in qpOASES library, status and values")
prop("S14","The problem Gurobi is asked to solve is the model as edited",
 "After any sequence of model edits, each followed by the flush the interface asks for, and solves, the model in the Gurobi library is exactly the current one: same variables, bounds, linear and quadratic constraints and objective with its constant. Every ending other than an optimum or a proof of infeasibility is reported as a failure, each variable gets its own value from the solution of its own model, and models are released.",
 ["histories","fault_sequences"],"every edit/solve sequence over the alphabet up to the depth bound, every ending of the library, and edits spread over two models",
 "Gurobi is not available to most test runs; bookkeeping of indices goes wrong only after particular removals.",
 [S+"src/gurobi_interface.cpp"],
 [("back end",S+"src/gurobi_interface.cpp")],
 "calls received by a stand-in Gurobi library, status and values")
# ------------------------------------------------------------------ legacy trajopt
prop("T01","Legacy joint terms penalise exactly what they describe",
 "For joint position, velocity, acceleration and jerk costs and constraints on any step range, the exact value of an equality cost is the weighted sum of squared deviations from target of the finite differences over that range, an inequality cost or constraint is positive exactly when some difference leaves its tolerance band (by the weighted excess), an equality constraint is violated by the weighted deviation from its target, the convex model of a cost equals its exact value at every point, the convex model of a constraint has the same violations as the constraint at every point, and ranges too short for the derivative are rejected.",
 ["inputs","configurations"],"every trajectory length, joint count, step range, weights, targets and tolerances in the grid, trajectories spanning the space",
 "Tests use full ranges and uniform weights.",
 [T+"src/trajectory_costs.cpp"],[("terms",T+"src/trajectory_costs.cpp")],
 "value, convex model and violations")
prop("T02","Trajectory and joint-subset helpers preserve the mapping of names to values",
 "Variables created for a trajectory are laid out step by step with the right names and are extracted back into the right cell of the trajectory array; copying a subset of named joint values into or out of a larger set changes or returns exactly the named entries, in the subset's order, and reports failure for unknown names without touching the output of an extraction; the superset test holds exactly for proper supersets.",
 ["inputs"],"every pair of name lists and value assignments and every trajectory shape up to the bound",
 "No tests cover permuted, repeated or missing names.",
 [T+"src/utils.cpp"],[("mapping",T+"src/utils.cpp")],
 "returned values")
prop("T03","JSON configuration values are read exactly or rejected",
 "Reading a number, boolean, string, list or fixed-size vector from JSON yields exactly the given values in order; an absent optional member takes its default and an absent required member raises an error that names it. A text, list or object where a number is expected, a list or object where a text is expected, a text, number or object where a list is expected, and a fixed-size vector of the wrong length raise an error; a scalar or fixed-size target is then left untouched.",
 ["inputs"],"every combination of requested type, JSON value kind and presence of default up to the nesting and length bound",
 "Tests read well-formed files only.",
 [T+"src/json_marshal.cpp",T+"include/trajopt/json_marshal.hpp"],[("conversion",T+"src/json_marshal.cpp, json_marshal.hpp")],
 "converted values and exceptions")
prop("T04","Collision settings survive being written and read",
 "Collision weights and complete collision settings written as YAML or as a binary, XML or JSON archive and read back are equal in every value, whatever the target held before, including weights of zero and names that look like other YAML. Reading YAML sets exactly the entries present, each to its value, with the order of the two names of a pair irrelevant, the margins scaled where asked, and the margin buffer under its new or old name; absent entries keep their defaults. A malformed entry or a document that is no map is refused. Two settings compare equal exactly if every field is equal.",
 ["inputs"],"every assignment of the weights to pairs, every combination of present, absent and malformed entries, and every pair of changed fields out of the stated values",
 "Tests read one complete document and write one object.",
 [C+"include/trajopt_common/yaml_extensions.h",C+"include/trajopt_common/cereal_serialization.h",C+"src/collision_types.cpp"],[("YAML",C+"include/trajopt_common/yaml_extensions.h convert"),("archives",C+"include/trajopt_common/cereal_serialization.h serialize")],
 "the object read back, its equality operators, and exceptions")
# ------------------------------------------------------------------ vhacd
prop("V01","Background convex decomposition can be cancelled or destroyed at any moment",
 "Under every interleaving of the background computation with the caller's start, poll, cancel, result queries, clean-up and destruction, no memory is used after release or without synchronisation, and nothing deadlocks. Every accepted request ends, finished or cancelled; a cancellation is never lost, whenever it comes, also from a progress callback. Progress and log messages reach only the callbacks of the request that sent them, on the caller's thread, at most once and in order, and the last ones of an uncancelled request before readiness is reported. Results (hulls, centre of mass) are those of the latest request only, and destruction, clean-up or cancellation waits for the background thread.",
 ["schedules"],"every interleaving up to the preemption bound of the caller's operation sequences with the background computation, with a stand-in decomposition engine",
 "There are no tests for this library; the window between poll, cancel and delivery is tiny.",
 [V+"src/VHACD-ASYNC.cpp"],[("async wrapper",V+"src/VHACD-ASYNC.cpp")],
 "calls on the async interface, callback and logger invocations",
 [("running and cancel flags, buffers","hand-over between caller and worker",V+"src/VHACD-ASYNC.cpp")])
prop("V02","Convex hulls enclose their points",
 "For every finite point set, the incremental hull and the hull computer return a hull that contains every input point, whose vertices are input points (for the hull computer up to its rounding, about 1e-4 of the extent), whose faces are outward oriented and convex, and which is closed; feeding the incremental hull its points in several goes gives a hull of all of them, and a limit on the number of points is obeyed. Degenerate inputs (coincident, collinear, coplanar points) end without crashing. The result does not depend on the unit of length the points are given in.",
 ["inputs"],"every point sequence up to the size bound and every point subset of a small integer grid, at several scales",
 "There are no tests for this library; failures hide in degenerate configurations.",
 [V+"src/btConvexHullComputer.cpp",V+"src/vhacdICHull.cpp",V+"src/vhacdManifoldMesh.cpp"],
 [("hull",V+"src/btConvexHullComputer.cpp"),("incremental hull",V+"src/vhacdICHull.cpp")],
 "hull vertices and faces")
prop("V03","A convex decomposition returns sound hulls, leaks nothing and can be cancelled at every call back",
 "For every closed mesh and parameter set, a completed decomposition returns at most the requested number of hulls, each closed, outward oriented, convex, with at most the requested number of vertices, with the volume and centre it reports, lying within the mesh's box; together they cover the mesh up to the voxel size. Repeating it on the same engine, or through the float interface, gives the same hulls; memory stays bounded and is all released. A cancellation from any progress or log call ends the computation with a failure and no damage, and the same engine can be used again afterwards.",
 ["inputs","crash_points"],"every small block shape with every listed parameter set; a cancellation at every single call back",
 "There are no tests for this library; a cancellation at a particular call back and particular shapes matter.",
 [V+"src/VHACD.cpp",V+"src/vhacdVolume.cpp",V+"src/vhacdMesh.cpp",V+"src/vhacdICHull.cpp",V+"src/vhacdManifoldMesh.cpp"],
 [("decomposition",V+"src/VHACD.cpp")],
 "hulls returned, call backs made, memory held")
prop("V04","Voxelisation classifies every cell, and splitting by a plane partitions the parts",
 "For every closed mesh, voxelisation marks exactly the cells that touch the surface as surface, those enclosed as inside and the others as outside, and the voxel and tetrahedron sets made from it have exactly the volume of those cells. Splitting a set by a plane puts every voxel (or piece of a tetrahedron) on its own side, in one part only, and loses none; the parts, split again, behave the same. The quick queries (volumes, bounding boxes, sampled points, hulls of the parts) agree with the parts of the split.",
 ["inputs"],"every small block shape at every listed resolution and position, every plane of a family, and again for the parts",
 "There are no tests for this library; failures hide in particular plane positions and shapes.",
 [V+"src/vhacdVolume.cpp",V+"include/vhacd/inc/vhacdVolume.h"],
 [("volumes",V+"src/vhacdVolume.cpp")],
 "cells, parts, volumes, boxes, points of the parts")
# ------------------------------------------------------------------ kinematic terms
prop("K01","Pose terms measure the pose error and its derivative",
 "For every robot group, source and target frame (either or both moving), offset, tolerance band and configuration, the pose constraint of the SQP library and the legacy static and dynamic pose calculators return, for the components asked for and in the order asked for, the translation and rotation-vector error of the moving frame seen from the fixed one (of the source seen from the target when both move), reduced by the tolerance band; their Jacobian is the derivative of that value, also where the rotation passes half a turn, placed in the columns of the term's own variable. Every component with a weight gives a row with its limits and weight (two rows for a range when asked to split), a component without weight none. Values depend only on the current joint values and target, whatever was evaluated before on this or other terms; unknown links, frames none of which moves, and tolerances or limits of wrong size or order are refused.",
 ["inputs","configurations","histories"],"every group, frame pair, offset, component list, limit assignment, tolerance band, configuration of the grids; every sequence of evaluations, moves and target changes to the depth bound on terms that share the cached poses",
 "Unit tests sample one robot with a fixed target and few configurations; frame swaps, half turns and partly weighted rows are not sampled, and need a kinematics library to run at all.",
 [I+"src/constraints/cartesian_position_constraint.cpp",T+"src/kinematic_terms.cpp"],
 [("pose constraint",I+"src/constraints/cartesian_position_constraint.cpp calcValues, calcJacobianBlock"),("legacy calculators",T+"src/kinematic_terms.cpp CartPose*Calculator, DynamicCartPose*Calculator")],
 "values, Jacobian, bounds and weights of the terms on a closed-form robot")
prop("K02","Line terms measure the distance to the segment, IK terms the distance to the nearest solution",
 "The Cartesian line constraint's target is the point of the segment nearest to the source frame (an end when the source is before or beyond it), with the orientation interpolated in proportion to the distance along the segment, for lines of any direction and length; its rows are the requested components of the pose error from that point, in the requested order, its Jacobian is their derivative in the columns of its own variable, and values at given joints equal values at the variable. The inverse-kinematics constraint asks the group for exactly its goal, frames and current seed, and its value is the offset to the nearest solution returned, with derivative minus one on its own variable. Malformed descriptions are refused.",
 ["inputs","configurations","histories"],"every line, source position, component list, node and configuration of the grids; every sequence of evaluations and moves to the depth bound on line constraints sharing the cached poses; every list of scripted solutions and order of changes",
 "The unit tests use one line of length one along x with all six components and a point on it, and need a kinematics library to run.",
 [I+"src/constraints/cartesian_line_constraint.cpp",I+"src/constraints/inverse_kinematics_constraint.cpp"],
 [("nearest point",I+"src/constraints/cartesian_line_constraint.cpp getLinePoint"),("rows",I+"src/constraints/cartesian_line_constraint.cpp calcJacobianBlock"),("nearest solution",I+"src/constraints/inverse_kinematics_constraint.cpp getValues")],
 "line points, values, Jacobian and bounds of the constraints on a closed-form robot; questions put to the IK solver")
prop("K03","Velocity, time and singularity calculators and their Jacobians agree",
 "The Cartesian velocity calculator returns the displacement of the tool point between two configurations against the limit in both directions; the joint velocity calculator (differences times inverse time of the later point) its distance above the upper and below the lower tolerance; the time calculator the sum of the times less the limit; the singularity calculators the reciprocal of the damped smallest singular value less that of the threshold, for a subset of the joints in any order as for the whole group. Each Jacobian is the derivative of its value, also in release builds, and joint subsets are extracted from and scattered to the right places.",
 ["inputs","configurations"],"every trajectory, inverse time, tolerance, configuration, tool point, joint subset and damping of the grids",
 "The terms need a kinematics library to run, tests with assertions enabled cannot see work done inside assertions, and sampled trajectories miss index slips.",
 [T+"src/kinematic_terms.cpp",T+"src/utils.cpp"],
 [("calculators",T+"src/kinematic_terms.cpp"),("subsets",T+"src/utils.cpp getSubset, updateFromSubset")],
 "values and Jacobians of the calculators on a closed-form robot")
# ------------------------------------------------------------------ problem descriptions
prop("P01","A problem description becomes exactly the problem it describes",
 "For every group, number of steps, time setting and description (built in code or read from JSON), the constructed problem has one variable per joint (and inverse time) and step, named and ordered by step, with the joint limits and time bounds; the initial trajectory is the one described (stationary, given or interpolated); exactly the steps and joints said to be fixed are fixed to their initial values, and ones that do not exist are refused. Terms are added once each, costs and constraints in their own lists, in the order described; a term of a kind it does not support, or a time term in a problem without time, is refused. Every solver option read from JSON reaches its own parameter and no other; unknown keys, missing sections and ill-shaped data are refused.",
 ["inputs"],"every pair of fixed steps and pair of fixed joints (also out of range) of every small problem; every pair of terms over supported and declared kinds; every key and pair of keys of the options",
 "Problem construction is only tested on a few complete files with a real robot; off-by-one indices and swapped options show in combinations no test has.",
 [T+"src/problem_description.cpp"],
 [("construction",T+"src/problem_description.cpp ConstructProblem"),("JSON",T+"src/problem_description.cpp ProblemConstructionInfo::read*, fromJson")],
 "variables, bounds, fixed values, initial trajectory, number and order of terms, parameters")
prop("P02","Joint position, velocity, acceleration, jerk and time terms cover exactly the steps, joints and limits described",
 "For every term of these kinds, as cost or constraint, with or without tolerances, with or without time, the problem gets exactly the costs or constraints that penalise (or restrict) the described derivative of each weighted joint at every described step, with its weight, target and limits, and named after the term; values, violations and convex models agree with the closed form. Ranges that do not fit the trajectory, and lists of the wrong length, are refused or completed as documented; the description in code and the one in JSON give the same terms.",
 ["inputs"],"every first and last step of problems of up to 5 (6) steps, every combination of parameter lengths, 6 settings of limits and weights, every trajectory of a set",
 "Tests sample complete trajectories with default ranges; shifted ranges, partial weights and JSON defaults are not sampled, and need a kinematics library to run at all.",
 [T+"src/problem_description.cpp",T+"src/trajectory_costs.cpp"],
 [("hatch",T+"src/problem_description.cpp Joint{Pos,Vel,Acc,Jerk}TermInfo::hatch, TotalTimeTermInfo::hatch"),("JSON",T+"src/problem_description.cpp *TermInfo::fromJson")],
 "costs and constraints of the problem: number, name, kind, value, violations, convex model")
prop("P03","Pose, Cartesian velocity, singularity and user-defined terms act on the described step, frames and weights",
 "For every such term, as cost or constraint, described in code (or, where the kind can be read, in JSON), the problem gets exactly one cost or constraint per described step (per pair of steps for a velocity) on the variables of that step, with the term's name, frames, offsets, tolerance band, weights, joint subset and kind of penalty; its value and violations are the weighted errors, its convex model agrees with the value at the point and to first order, and the steps said to be fixed stay so in the model. Unknown links or joints, frames none of which moves, steps outside the trajectory and ill-typed or unknown parameters are refused.",
 ["inputs","configurations"],"every pair of links of three groups, every subset of weighted components, every step and range of steps of 1..4, every penalty and constraint kind, every missing and unknown parameter",
 "The terms need a kinematics library to run; tests use one robot with few frames and all components weighted.",
 [T+"src/problem_description.cpp",T+"src/kinematic_terms.cpp",S+"src/modeling_utils.cpp"],
 [("hatch",T+"src/problem_description.cpp DynamicCartPoseTermInfo, CartPoseTermInfo, CartVelTermInfo, AvoidSingularityTermInfo, UserDefinedTermInfo")],
 "costs and constraints of the problem: number, name, kind, value, violations, convex model")
prop("P04","Collision terms penalise every contact of the described steps and pairs, wherever it lies in the motion",
 "For every collision term (single step, sampled or swept between steps), every range of steps and set of fixed steps (no two adjacent ones in one continuous term), every setting of margins, weights, pairs and buffer, as cost or constraint, described in code or JSON: the problem gets one term per step or pair of steps, asks the contact checker with margin plus buffer, takes a contact's share of the value to be weight times what its distance lacks to the pair's margin, ignores contacts between links that do not belong to the group and pairs without weight, and its convex model agrees with its value at the point and, within a segment, to first order in the variables of the steps not fixed. Values and models depend only on the trajectory asked for, whatever was evaluated before.",
 ["inputs","configurations","histories"],"every set of 6 pairs of points, 4 settings, 5 groups, 4 kinds of check, every range of steps and set of fixed ones to 3 (4) steps; every sequence of 3 (4) evaluations and convexifications at 5 points on one problem",
 "The terms need a robot and a contact library to run; tests check only that an optimised trajectory of one robot is free of collisions, which hides lost contacts, wrong weights and stale caches.",
 [T+"src/collision_terms.cpp",T+"src/problem_description.cpp"],
 [("evaluators",T+"src/collision_terms.cpp *CollisionEvaluator, CollisionCost, CollisionConstraint"),("hatch",T+"src/problem_description.cpp CollisionTermInfo")],
 "costs and constraints of the problem, questions put to the contact checker, values, violations and convex models")
prop("P05","Optimising a described problem reaches what was described, and reports it truthfully",
 "For every problem, OptimizeProblem starts from the described trajectory and returns one of the same shape in which the fixed steps have not moved and all limits hold, with exactly the costs and violations of the named terms there and a status that is true: converged only without violations above the tolerance. A convex problem (quadratic and soft-band costs, joint and speed limits, required ends, from any start) is solved to its global optimum up to the stop criterion when it is feasible, and reported unsatisfied when it is not; poses that can be reached nearby are reached, time-optimal motion between two positions takes about the least time, a converged motion is clear of contacts by the margin. The result does not depend on what was optimised before; up to three solver failures in a row are survived, more end in status failed with a consistent result.",
 ["inputs","histories","crash_points"],"every combination of ends, middle terms, speed limits, accelerations, starts and 2 to 4 (6) steps of convex problems; every listed pose, time and collision problem; every sequence of three problems out of 6 (8), also the same once more; solver failures of every length at every QP",
 "End-to-end tests need a robot library and sample a handful of problems whose start already satisfies most of what is asked.",
 [T+"src/problem_description.cpp",T+"src/trajectory_costs.cpp",T+"src/collision_terms.cpp",S+"src/optimizers.cpp"],
 [("end to end",T+"src/problem_description.cpp OptimizeProblem, TrajOptResult"),("terms",T+"src/trajectory_costs.cpp"),("optimiser",S+"src/optimizers.cpp BasicTrustRegionSQP::optimize")],
 "trajectory, status, costs and violations of the result")
prop("P06","What is logged and drawn during an optimisation is the present iterate",
 "The log written by WriteCallback starts with one line that names the joints of the group (and the time, if the problem has one) first and all costs and constraints last, in the order of the columns; every call back then appends one line per step with the variables of that step, the pose of every link at the joint values of that step, and the values of all costs and violations of all constraints as given, and the file is complete after each call back. A drawing call back clears the display first, draws for every pose term of the problem (cost or constraint) exactly its source and target pose and the arrow between them at the iterate, draws the trajectory with one state per step holding exactly the joints of the group, and waits once, last. The SQP library's call backs draw the present values of the variables and constraints added, in the order added. None of them changes the results or variables, or stops the optimisation, whatever was logged or drawn before.",
 ["inputs","histories"],"every sequence of 3 (4) iterates of problems of 5 groups, 1 to 4 steps, with and without time, every set of 3 pose terms; every sequence of 3 (4) moves and call backs of the SQP library's call backs",
 "No test reads a log or looks at what is drawn; both need a robot library, and wrong columns or stale frames do no visible harm.",
 [T+"src/file_write_callback.cpp",T+"src/plot_callback.cpp",Q+"src/callbacks/joint_state_plotter.cpp",Q+"src/callbacks/cartesian_error_plotter.cpp",T+"src/kinematic_terms.cpp"],
 [("log",T+"src/file_write_callback.cpp WriteFile, WriteCallback"),("drawing",T+"src/plot_callback.cpp PlotCosts, PlotProb"),("pose markers",T+"src/kinematic_terms.cpp *ErrCalculator::Plot"),("SQP call backs",Q+"src/callbacks/*.cpp")],
 "text of the log; trajectories and markers handed to the display")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
