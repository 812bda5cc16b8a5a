#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only to keep the lines readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": mech, "hook_needed": False}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
K = "intvalpy/kernel/"
L = "intvalpy/linear/"
N = "intvalpy/nonlinear/"

prop("C01", "Interval arithmetic never loses a possible real result",
 "For proper intervals and ordinary numbers (Python int/float, NumPy int64/float64) in any mix and order, the result of +, -, *, /, negation, abs and non-negative integer powers contains the exact real result for every choice of points of the operands, rounding included, and so does every longer computation built from them. Dividing by an interval (or number) that contains zero raises an error; operations never change their operands.",
 ["inputs", "programs"], "all proper intervals with finite endpoints in either arithmetic class, all int/float/int64/float64 operands on either side, and all sequences of operations over registers",
 "Tests compare a few literal results with ==; enclosure must hold to the last bit for every pair of doubles and after any number of steps.",
 [K + "interval_arithmetics.pyx"], ["directed rounding around every endpoint computation", "case formulas for products", "zero test before division"],
 observe="values returned by the operators")
prop("C02", "Arithmetic results are as tight as floating point allows",
 "Each endpoint of the result of +, -, and * on proper intervals and numbers lies within one unit in the last place of the exact endpoint of the range, of / within four, of non-negative integer powers within a few more per factor; negation and abs are exact, and x ** 0 is [1, 1].",
 ["inputs"], "all proper intervals and numbers whose exact result stays in the normal range of doubles",
 "An operator that over-widens for some sign pattern or operand class still passes tests on other patterns.",
 [K + "interval_arithmetics.pyx"], ["one directed rounding per endpoint", "max rather than sum in the product formula"])
prop("C03", "Kaucher arithmetic obeys its algebra for improper intervals",
 "For every pair of proper or improper intervals +, -, * and / include and agree (to rounding) with Kaucher's definition, where a proper operand contributes a join and an improper one a meet over its points; dual and pro are exact, x + opp(x) and x * inv(x) (zero not in pro x) contain 0 and 1 tightly, and dual is an involution that commutes with the operations. Dividing by an interval whose projection contains zero raises an error.",
 ["inputs", "programs"], "all pairs of intervals, proper or improper, and numbers",
 "Existing tests check a handful of literal products; the case analysis has 4x4 sign/direction patterns for two operand classes plus numbers.",
 [K + "interval_arithmetics.pyx"], ["Lakeyev's formulas for products", "dual/opp/inv/pro properties"])
prop("C04", "Elementary functions enclose the true range",
 "sqrt, exp, log, sin, cos and sign of a proper interval (and of each element of an interval array) contain the function's true value at every point of the argument inside its domain, and are not wider than the true range by more than a few units in the last place plus a tiny absolute amount; outside the domain (log or sqrt of a negative interval) the answer is not-a-number, never a finite interval. sqrt and real powers may be wider by about 2^-38 of the value. For an improper interval sin, cos, exp and log give the dual of the range over its projection, rounded outwards in Kaucher's order (lower end down, upper end up), and powers with real exponents enclose t**p.",
 ["inputs"], "all finite arguments of moderate size (|x| up to about 1e5 for sin and cos), proper or improper",
 "Tests sample a few arguments and compare to printed values; extremum detection and rounding fail only for particular arguments.",
 [K + "interval_arithmetics.pyx", K + "elementary_functions.py"], ["monotone evaluation at endpoints with outward rounding", "detection of extrema of sin and cos"])
prop("C05", "Order, membership, inclusion and intersection agree with set semantics",
 "Comparisons <, <=, >, >=, ==, != of intervals and numbers hold exactly when they hold for both endpoints; `in`, subset, superset, proper_subset, proper_superset and contain decide real membership and inclusion (componentwise for arrays); intersection(x, y) is exactly the common part of x and y, and [nan, nan] when they are disjoint (a gap of at most 1e-15 counts as touching).",
 ["inputs"], "all pairs of intervals, numbers and interval arrays, touching and adjacent-double cases included",
 "Boundary cases (touching, adjacent doubles, degenerate intervals) are not sampled by tests.",
 [K + "interval_arithmetics.pyx", K + "utils.py", K + "preprocessing.py", K + "real_intervals.py"], ["endpoint comparisons"])
prop("C06", "Constructors and conversions give exactly the intervals asked for",
 "Interval built from endpoints, pairs, vectors or nested sequences has exactly the endpoints given: sorted by default, kept as given (improper when left > right) with sortQ=False, and enclosing [mid-rad, mid+rad] tightly with midRadQ=True, where a negative radius is refused; asinterval and re-construction leave intervals and interval arrays as they are and turn numbers and arrays of numbers into point intervals.",
 ["inputs", "configurations"], "all numeric endpoints and nestings, every sortQ/midRadQ combination",
 "Combinations of input form, flags and number types are sampled once or twice by tests.",
 [K + "real_intervals.py", K + "preprocessing.py"], ["SingleInterval normalisation", "dispatch on argument form"])
prop("C07", "Interval characteristics are correct and agree in scalar, array and util forms",
 "inf, sup, mid, rad, wid, mag, mig, khi, compmat and dist equal their definitions to rounding for every interval, mid lies between the endpoints, mig is 0 exactly when the (proper) interval contains zero; the property of an array, the module-level function and the scalar property return the same values elementwise.",
 ["inputs"], "all scalar intervals and 1-3 dimensional arrays, numbers passed to the module functions",
 "Consistency across three implementations and all sign patterns is never tested.",
 [K + "interval_arithmetics.pyx", K + "real_intervals.py", K + "utils.py"], ["separate implementations of each characteristic"])
prop("C08", "Array operations are the scalar operations applied elementwise",
 "Arithmetic between interval arrays, intervals, numbers, lists and NumPy arrays in either order (including broadcasting, NumPy ufunc calls and in-place operators), unary operations, powers, comparisons, reshape, transpose, indexing, diag and matrix products give, position by position, what the scalar operations give under NumPy's shape rules; matrix products enclose the exact sum of products.",
 ["inputs", "programs"], "all operand kinds, orders and broadcastable shapes of up to three dimensions",
 "Tests use a few 2x2 literals; dispatch depends on operand order, type and shape.",
 [K + "real_intervals.py", K + "utils.py"], ["object arrays with elementwise dispatch", "__array_ufunc__ ordering"])
prop("C09", "Interval arrays stay consistent through any mutation history",
 "Through any sequence of item and slice assignment, deletion, in-place arithmetic, reshape, transpose, copy, extraction and iteration over a pool of interval arrays, the contents, shape, ndim, length and iteration of every array are those of the same operations on values: an operation changes the one array it is applied to and no other, so a copy, slice, transpose or reshape never changes when its source does; an operation that raises changes nothing.",
 ["histories"], "all operation sequences over a pool of arrays of up to three dimensions",
 "Needs multi-step histories: stale metadata and aliasing are only visible after several operations.",
 [K + "real_intervals.py"], ["constructor that copies its elements", "shape derived from the contents"],
 state=[{"name": "_data", "meaning": "contents", "where": K + "real_intervals.py ArrayInterval"}])
prop("C10", "The processor's rounding mode is always restored",
 "After any library call returns or raises, ordinary floating-point arithmetic of the process rounds to nearest exactly as before the call, and so it does inside every function of the user that the library calls back.",
 ["histories", "fault_sequences"], "all public scalar and array operations, including ones that raise (division by zero, overflow, bad types) and user callbacks that raise, in any order",
 "Tests never look at the rounding mode; a leak shows up only as last-bit errors in unrelated code.",
 [K + "interval_arithmetics.pyx"], ["context manager around fesetround"],
 state=[{"name": "rounding mode", "meaning": "process-wide FPU state", "where": K + "interval_arithmetics.pyx RoundingContext"}])
prop("C11", "Recognizing functionals decide membership in the solution sets",
 "Tol, Uni and Uss value and constituent equal their defining formulas at every point, for every system and weight vector, up to rounding, and value is the minimum of the constituents; value >= 0 holds exactly at the points of the tolerable (Tol) or united (Uni, Uss) solution set of A x = b, decided by the inclusion A x in b or by meeting A x with b. ChebNorm.value is likewise the greatest weighted magnitude of the residual b - A x.",
 ["inputs"], "all interval systems, points and positive weights", 
 "Tests evaluate the functionals on one system; the sign must be right near and across every facet and orthant.",
 [L + "Tol.py", L + "Uni.py", L + "Uss.py", L + "ChebNorm.py"], ["per-row formulas with sign selections"])
prop("C12", "Maximization of recognizing functionals reports consistent, optimal results",
 "maximize returns a point, the value of the functional at exactly that point, iteration and call counts and an exit code; the value is not less than at an admissible start point and, in default settings, reaches the global maximum of Tol (of every functional for point matrices) to about 1e-6. With a linear constraint and default settings the point for Tol satisfies it (to tolerance), also when the constraint object is reused for other systems. ChebNorm.minimize keeps the same promises for the least Chebyshev norm of the residual. One iteration with a short first step from a point where the functional is smooth goes along its gradient and improves it, for every functional, system and weights.",
 ["inputs", "configurations"], "small random systems, start points, weights and constraints, default options",
 "Optimality is a statement about all other points; tests compare with one published value.",
 [K + "abstract.py", K + "ralgb5.py", L + "Tol.py", L + "Uni.py", L + "Uss.py", L + "ChebNorm.py"], ["sub-gradient ascent from a least squares start", "exact penalty for constraints"])
prop("C13", "The optimizer ralgb5 keeps its reporting protocol on every objective",
 "For every objective function, ralgb5 returns the best point it has evaluated together with its value, makes exactly as many objective calls as it reports, stops within its iteration limit and with the exit code whose condition holds, and never modifies the start point.",
 ["histories", "inputs"], "all objective functions (convex, non-convex, plateaus, errors raised midway) and option values",
 "The protocol is about the whole history of calls; tests look at the final value on one objective.",
 [K + "ralgb5.py"], ["record update inside the line search", "call and iteration counters", "stopping tests"],
 state=[{"name": "xr, fr, nit, ncalls, ccode", "meaning": "record point and counters", "where": K + "ralgb5.py"}])
prop("C14", "Outer estimates of linear systems never cut off a solution",
 "Whenever Gauss, Gauss_Seidel, HBR or Rohn (the last one also for overdetermined systems) returns a box for A x = b, that box contains every solution of every point system with A and b inside the given intervals (for Gauss_Seidel: every one in the initial box). They return a box for every matrix with a strictly dominant diagonal; the box of HBR is the exact hull when the middle of A is the unit matrix; the arguments are left unchanged.",
 ["inputs"], "interval systems for which the method returns a result, regular, singular and badly conditioned ones included, any initial box, preconditioner and iteration limit",
 "The guarantee quantifies over infinitely many point systems; tests compare one box.",
 [L + "Gauss.py", L + "Gauss_Seidel.py", L + "HBR.py", L + "Rohn.py"], ["interval elimination", "iteration with intersection", "Hansen-Bliek-Rohn bound"])
prop("C15", "PSS and PPS give outer bounds at any stopping time, optimal at convergence",
 "Stopped after any number of steps, the partitioning methods PSS (square and overdetermined systems, optionally inside an initial box) and PPS (square systems) return bounds, of all components or of the one asked for, that contain the united solution set, and when they converge their bounds agree with the exact componentwise bounds of that set to about 1e-6; the arguments are left unchanged.",
 ["inputs", "configurations"], "small regular systems without extreme scaling, all iteration limits, both bounds of each component",
 "Any-time validity quantifies over every stopping point and every branch order.",
 [L + "PSS.py", L + "PPS.py"], ["branch and bound work list with monotonicity tests"],
 state=[{"name": "work list L", "meaning": "boxes of parameters with their bound estimates", "where": L + "PSS.py"}])
prop("C16", "Tolerable set estimates: inner boxes are inside, hulls are exact",
 "Neumaier returns, for every tolerable centre, a box around it that consists of tolerable solutions only (to rounding) and extends in each direction by the same multiple of that direction's weight, the multiple being the least slack of a row over the weighted magnitudes of the row; a centre that is not tolerable is refused. Rohn with consistency='tol' returns the exact hull of the tolerable solution set when the set is bounded and has inner points, and raises when the set is empty. Arguments are left unchanged.",
 ["inputs"], "interval systems with empty and nonempty tolerable sets of any shape (n x m), any centre inside, on the border or outside, any weights",
 "Tests use one system; the set is a polyhedron whose every vertex and facet matters.",
 [L + "Neumaier.py", L + "Rohn.py"], ["linear programs built from endpoint matrices", "largest box around a centre by the least row slack"])
prop("C17", "Subdiff finds formal solutions of interval equations",
 "For every square matrix of proper or improper intervals whose diagonal strictly dominates its rows and every right-hand side, the sub-differential Newton method with default iteration limit returns a vector that, substituted into A x in Kaucher arithmetic, reproduces b up to the requested tolerance; relaxation tau between 1/2 and 1 does not change that, and the arguments are left unchanged.",
 ["inputs"], "square systems with proper, improper and mixed elements of all sign classes and a dominant diagonal",
 "Tests check one system; sign/direction cases are only reached by varied data.",
 [L + "Subdiff.py"], ["Newton iteration in the immersion space R^2n"])
prop("C18", "Krawczyk and Hansen-Sengupta never lose a zero",
 "For every system f(x) = 0 and starting box, every iterate of Krawczyk and HansenSengupta (seen by the user's call-backs) and the returned box lie inside the previous one and contain every zero of f in the starting box; emptiness is reported ([nan] or the exceptions that say so) only if the starting box has no zeros; the number of iterations respects the limit, the functions are never called outside the starting box, the arguments are unchanged, and for affine functions with a dominant matrix the box shrinks to the zero.",
 ["inputs", "configurations", "histories"], "smooth systems with known zeros, every box around, touching or beside them, all iteration limits and tolerances",
 "Losing a zero depends on the box and the iteration; tests check one problem.",
 [N + "external_evaluation.py"], ["preconditioned interval Newton step", "intersection with the current box"])
prop("C19", "Global optimization bounds hold at any stopping time",
 "globopt returns a box inside the start box and the interval value of the function over it, whose lower end is never above the true global minimum over the start box and whose upper end is never below it, whatever the iteration limit; with enough iterations the lower end is within the tolerance of the true minimum. The function is never called outside the start box and the start box is unchanged.",
 ["inputs", "configurations"], "polynomials of one to three variables with certified minima, interior, on the border and in corners, all iteration limits and tolerances",
 "Validity at every stopping point is a property of the whole work list history.",
 [N + "globopt.py"], ["best-first bisection with an ordered list"],
 state=[{"name": "work list", "meaning": "boxes with lower bounds", "where": N + "globopt.py"}])
prop("C20", "Planar solution sets are drawn with exactly their vertices",
 "lineqs returns all and only the vertices of the polygon A x >= b in boundary order (nothing when there is no solution), and IntLinIncR2 returns for each orthant (first, second, third, fourth) the vertices of that part of the united (or tolerable) solution set of an interval system. Unbounded sets are clipped to the given bounds, or to a box of the library's choice that shows every vertex and has an interior; bounded sets are not clipped. Sets without interior may be reported as empty. The result of a call does not depend on earlier calls.",
 ["inputs", "histories"], "all systems of two unknowns: redundant, parallel, degenerate, unbounded and empty ones, in any order of calls",
 "Polygon enumeration fails on special position only; tests check a few fixed systems.",
 [L + "boundary_intervals.py"], ["boundary interval method", "orthant decomposition"])
prop("C21", "Spatial solution sets are drawn with exactly their vertices",
 "lineqs3D and IntLinIncR3 return, for every facet of the polyhedron (of each orthant part of the solution set) of a system of three unknowns, its vertices in boundary order, and no other points; sides that only touch the set may appear as points or edges. Unbounded sets are clipped to the given bounds, or to a box of the library's choice that shows every vertex and has an interior. The result of a call does not depend on earlier calls.",
 ["inputs"], "all systems of three unknowns: redundant, parallel, repeated, degenerate, unbounded and empty ones",
 "As for two unknowns, with many more degenerate configurations.",
 [L + "boundary_intervals.py"], ["reduction to the planar case on every facet"])
prop("C22", "Data fitting models maximize their functional and predict with what they fit",
 "After WILS.fit or ISPAE.fit on interval or point data, the reported value is the minimum (norm 'inf') or the sum (norm 'l1') over the rows of the smoothed weight times the row's functional (Tol, Uni or Uss of the target and the exact range of the model over the row) at the reported coefficients; it is not below the value at a given start, is the global maximum for Tol (for Uni and Uss on point data) with default options, and keeps to linear constraints. Every basis and order is a linear model in the basis polynomials of degree 1, 2, ... of each column plus, if wanted, a constant. predict uses the last successful fit of that model object and encloses the model's exact range over each row, no wider than the ranges of its terms; fitting and predicting leave the arguments unchanged, repeating a fit repeats its result, and impossible requests are refused.",
 ["inputs", "configurations", "histories"], "data sets of one to three features, all orders, bases, objectives, norms, weights, smoothing and bias settings, and sequences of fits and predictions of several models",
 "Optimality and the agreement of fit and predict are relations over all data sets and settings.",
 ["intvalpy/models/WILS.py", "intvalpy/models/ISPAE.py"], ["design matrix of basis functions", "maximization of recognizing functionals", "sub-gradients of polynomial ranges"],
 state=[{"name": "estimator, order, bias, columns", "meaning": "what the last fit left on the model object", "where": "intvalpy/models/"}])
prop("C23", "Calls are pure: inputs survive and results do not depend on history",
 "No public function changes the arrays, intervals, lists, data frames or constraint objects it is given, earlier results, or settings of the process (numpy, random, warnings, decimal, mpmath, matplotlib and cvxopt settings, files, environment). The same call on equal values returns the same result whatever calls (successful, failing, or aborted by a raising call-back) were made before and whatever the user did to other objects. Computed results share no storage with arguments, with each other or with the library: what the user writes into one shows up nowhere else.",
 ["histories", "fault_sequences"], "all sequences of public calls, including failing ones, over shared inputs",
 "Hidden module state and argument mutation need particular call orders to show.",
 [L + "boundary_intervals.py", K + "abstract.py", "intvalpy/models/WILS.py", "intvalpy/models/ISPAE.py", L + "PSS.py", L + "PPS.py"], ["module level globals", "caching on constraint objects"],
 state=[{"name": "__center_rm, LinearConstraint.mu", "meaning": "state that outlives a call", "where": L + "boundary_intervals.py, " + K + "abstract.py"}])
prop("C24", "Test systems and array constructors have their documented entries",
 "zeros, full, eye and diag (every diagonal, of vectors and of rectangular matrices) return arrays of exactly the documented shape and entries; the Neumaier, Shary and Toft systems have the documented matrix and right-hand side, computed ends being right up to one rounding, for all sizes, parameters and defaults. Shary_system refuses N < n - 1 and every alpha, beta outside 0 < alpha <= beta <= 1, Toft_system refuses negative radii.",
 ["inputs", "configurations"], "all sizes and parameter values in and out of the documented domain",
 "Tests look at a single size.",
 [K + "new_objects.py", K + "utils.py"], ["entry formulas"])
prop("C25", "Pictures show exactly the computed sets and leave other canvases alone",
 "lineqs, IntLinIncR2, lineqs3D and IntLinIncR3 with show=True return the same vertices as without a picture and open exactly one new figure, of the asked size (and title, transparency, in the plane also colour), on which every returned polygon or face is drawn once as a filled polygon with dots of the asked size at exactly its vertices, and nothing else, inside the limits of the axes (in space: the asked bounds); IntLinIncR3 may hide faces in coordinate planes that the set crosses, unless zero_lvl=False. A file title.png appears exactly when save=True. With show=False there is no figure. IPlot opens a figure with the asked number of axes, and scatter, lineqs and IntLinIncR2 add the boxes (filled, one-dimensional ones outlined, points as dots) or vertex lists to the axes they are asked for (by default the first) and change no other axes, figure, or what was drawn before. This holds in any history of such calls.",
 ["inputs", "configurations", "histories"], "all systems, options, numbers of axes and sequences of drawing calls",
 "Tests always call with show=False and never look at a figure.",
 [K + "visualization.py", L + "boundary_intervals.py"], ["drawing branches", "set_ax", "scatter"])
prop("C26", "The variability measure follows its definition",
 "ive(A, b, N) equals sqrt(n) * max Tol * min cond * |arg max Tol| / |mag b| for the n unknowns of the system, the minimum being over the spectral condition numbers of the corner matrices of A that its N random draws visit: it has the sign of max Tol, always stands for the condition number of one of the corner matrices, and for the least one when N is large against the number of corner matrices (and always when A is a point matrix). The draws continue the process's random stream (numpy.random): the same stream gives the same value, different streams visit different corners, and the call does not restart the stream.",
 ["inputs", "configurations"], "all interval systems, every N and random draw",
 "No test calls ive.",
 [L + "system_properties.py"], ["corner matrices", "closed formula"])
prop("C27", "Preparing rows and linear constraints never changes the described set",
 "A LinearConstraint stands for exactly the points with lb <= C x <= ub: its normal form, largeCondQ and linear_penalty (mu times the total excess, and its gradient) agree with the given limits at every point, absent and infinite limits and rows without unknowns constrain nothing, inconsistent shapes are refused, and find_mu returns and stores a weight that is not below any Lagrange multiplier of a functional of the given steepness. unique and non_repeat keep the first of all rows that agree after rounding to the given decimals, in order; clear_zero_rows drops exactly the rows of A x >= b without unknowns and its verdict is False exactly when one of them is impossible; get_shape is numpy's shape, for nested sequences of numbers, intervals and arrays. None of them changes its arguments.",
 ["inputs"], "all matrices, limits, points, roundings and nestings",
 "Tests exercise these only through one or two examples of other functions.",
 [K + "abstract.py", K + "preprocessing.py"], ["normal form of constraints", "penalty and its weight", "row preparation", "get_shape"])
prop("C28", "What is printed or exported is what the interval holds",
 "The text of an interval or interval array (repr, str, formatting) has the array's shape and shows both ends of every element, left end first, rounded to nearest at six significant digits (infinities by name); NumPy conversion, iteration, list, to_float, copy, deepcopy and re-construction give the same intervals, improper ones included, in the same shape, ranges gives the index ranges, and overwriting what was exported does not change the interval or array.",
 ["inputs"], "all intervals and arrays of up to 1000 elements",
 "Tests look at one or two texts; rounding of every magnitude and every shape is not sampled.",
 [K + "interval_arithmetics.pyx", K + "real_intervals.py"], ["__repr__ of intervals and arrays", "__array__, to_float, copy", "ranges"])

prop("C29", "Ill-formed calls are refused, well-formed ones answered",
 "A call whose arguments do not fit together (a matrix that is not square where it must be, a right-hand side, point, weight or constraint of another length, a figure of another dimension, array shapes that do not match, an unknown option, a comparison with or conversion of something that is not an interval or number, a fractional power of an interval with negative numbers, a divisor containing zero, a function without zeros in the box of a root finder) raises an exception in bounded time instead of giving an answer; a well-formed call is answered with a result of the right shape; either way the arguments are left as they were.",
 ["inputs"], "systems of up to 5 equations, arrays of up to three dimensions",
 "Tests try one wrong call here and there; that no combination of sizes slips through to a wrong answer is not sampled.",
 [K + "utils.py", K + "real_intervals.py", "intvalpy/linear", "intvalpy/nonlinear"], ["assert and raise statements at the entry points"])
prop("C30", "Calls that overlap in time do not influence each other",
 "A call made while others are under way, in other threads of the process (even on the same arguments) or from a call-back of another call, returns or raises exactly what it does alone, and so do the others, under every interleaving; meanwhile no other thread ever sees an argument changed, and afterwards ordinary arithmetic, warning filters, numpy and mpmath settings and the random state are what they were. (Not for pictures, random draws, or one model object used by several threads.)",
 ["schedules", "inputs"], "every interleaving of two or three threads at the lines of the library, every nesting of calls in call-backs",
 "Tests run one call at a time.",
 [K + "abstract.py", K + "utils.py", "intvalpy/linear", "intvalpy/nonlinear", "intvalpy/models"], ["module-level state", "functionals and their prepared data", "drawing window"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
