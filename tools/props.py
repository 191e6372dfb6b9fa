import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or [],hook_needed=None)))
F="src/Functions/"; I="include/gsplines/"
p("C01","Function expressions evaluate to the mathematics they were built from",
"For every expression built from the elementary functions with +, binary and unary -, *, scalar multiples, composition, concatenation and dot product, evaluating it at any list of points gives row by row exactly the value the mathematical expression has there, whatever the nesting. A concatenation uses the right-hand piece at an inner breakpoint and holds its first/last value outside its domain. The reported domain and codomain dimension are those of the mathematical result.",
["programs","inputs"],"all expression trees over the elementary functions, all operators, all nestings, all evaluation points",
"The tests build a handful of trees (function_algebra, functions_*) and evaluate at random points; nested combinations of expression kinds (negating a sum, concatenating a product with a composition, ...) are combinatorially many and mostly never built.",
[F+"FunctionSum.cpp",F+"FunctionMul.cpp",F+"FunctionsComp.cpp",F+"FunctionsConcat.cpp",F+"FunctionExpression.cpp",F+"FunctionGenericOperations.cpp",F+"FunctionBase.cpp",F+"ElementalFunctions.cpp"],
[("flattening operation handlers",F+"FunctionGenericOperations.cpp"),("per-kind evaluation functions",F+"FunctionSum.cpp, FunctionMul.cpp, FunctionsComp.cpp, FunctionsConcat.cpp")],
["value(points)","get_domain()","get_codom_dim()"])
p("C02","Symbolic derivatives of any order are exact for every expression",
"For every expression tree, and every order n >= 0, the n-th derivative object evaluates inside the domain to the true n-th derivative of the function the expression denotes, with the same domain and codomain dimension. Order 0 is the function itself, and deriving n times by one equals deriving once by n.",
["programs","inputs"],"all expression trees, all orders, all points in the interior of the pieces",
"Existing tests check first/second derivatives of a few fixed products and compositions; higher orders of nested product/composition/concatenation/dot trees are never reached.",
[F+"FunctionSum.cpp",F+"FunctionMul.cpp",F+"FunctionsComp.cpp",F+"FunctionsConcat.cpp",F+"FunctionExpression.cpp",F+"ElementalFunctions.cpp"],
[("per-kind derivation functions (Leibniz, chain rule)",F+"FunctionMul.cpp, FunctionsComp.cpp"),("elementary derivatives",F+"ElementalFunctions.cpp")],
["deriv(n)","derivate(n)"])
p("C03","Function objects are values: lvalue operands and copies are never disturbed",
"An operation whose operand is passed as an lvalue leaves that operand's value, domain, codomain and derivatives unchanged; the result does not depend on whether operands were passed as lvalues or moved; results, copies and clones stay correct after their sources are destroyed or changed. Compound assignments (+=, *=) leave the target equal to the corresponding binary operation and the right operand unchanged, for every kind of target, including a target combined with itself.",
["histories","programs"],"all sequences of building, copying, moving, cloning, destroying and compound-assigning operations over a set of live expressions, in all lvalue/rvalue combinations",
"Each binary operator has four ref-qualified overloads with separate code; the tests use mostly one of them and never look at the operands afterwards or at histories longer than two operations.",
[F+"FunctionSum.cpp",F+"FunctionMul.cpp",F+"FunctionsComp.cpp",F+"FunctionsConcat.cpp",F+"FunctionExpression.cpp",F+"FunctionGenericOperations.cpp",F+"FunctionBase.cpp",I+"Functions/FunctionInheritanceHelper.hpp"],
[("deep copies of owned sub-functions",F+"FunctionExpression.cpp"),("four ref-qualified overloads per operator",I+"Functions/FunctionExpression.hpp")],
["live objects after each step"],[("owned sub-function list","operands of an expression node",I+"Functions/FunctionExpression.hpp")])
p("C04","Ill-typed function combinations are rejected, well-typed ones accepted",
"Sums and differences of functions with different domains or different codomain dimensions, products of functions with different domains or of two vector-valued functions, compositions with a vector-valued inner function, dot products of functions with different domains or codomain dimensions, and concatenations of functions with different codomain dimensions or non-adjacent domains throw an invalid-argument error, in every overload (including compound assignment, which also refuses a result that would change its target's codomain), and leave the operands as they were. Every combination that satisfies these rules (domains compared with tolerance 1e-9) is accepted.",
["programs","inputs"],"all pairs of expressions of every kind, domains and codomain dimensions, all operators and overloads",
"The tests check one or two rejections; the compatibility test is duplicated per operator and overload.",
[F+"FunctionSum.cpp",F+"FunctionMul.cpp",F+"FunctionsComp.cpp",F+"FunctionsConcat.cpp",F+"FunctionBase.cpp"],
[("sum_throw / compatibility_mul / comp_throw / concat_throw",F),("same_domain, same_codomain",F+"FunctionBase.cpp")],["exceptions thrown by operators"])
p("C05","A generalized spline evaluates to its piecewise definition",
"At every point t a GSpline's value is, component by component, the linear combination of its basis functions with the coefficients of the interval containing t (breakpoints belong to the interval on their left, the domain start to the first interval, points outside the domain to the nearest end interval), evaluated at the point's position in that interval. The value at a list of points, in any order, equals the values at the single points; the breakpoints and waypoints it reports are its interval boundaries and its values there. A coefficient vector whose length does not match intervals x codomain x basis size is rejected.",
["inputs","configurations"],"all bases, interval counts, interval lengths, domain starts, codomain dimensions, coefficients and evaluation points",
"The tests evaluate random splines at random points, mostly starting at 0, where breakpoints, unsorted point lists and extrapolation are never hit.",
["src/GSpline.cpp",I+"GSpline.hpp","src/Basis/Basis.cpp"],
[("interval search and window mapping","src/GSpline.cpp: get_interval, interval_to_window"),("coefficient layout","src/GSpline.cpp: coefficient_segment")],
["value(points)","get_waypoints()","get_domain_breakpoints()"])
p("C06","Derivatives of splines are exact, for every basis and order",
"For every GSpline and order n, its n-th derivative is a GSpline on the same domain and intervals whose value inside every interval is the n-th derivative of the original; orders compose (deriving m then n equals m+n), order 0 is the spline itself, orders beyond the polynomial degree give zero, and deriving leaves the original unchanged.",
["inputs","configurations","histories"],"all bases and sizes, orders 0..2*dim, interval lengths, orders requested in any sequence from shared or copied splines",
"The tests compare with finite differences for low orders of one basis at a time; high orders, order sequences (which fill internal caches) and unequal interval lengths are not covered.",
[I+"GSpline.hpp",I+"Basis/Basis.hpp","src/Basis/BasisLegendre.cpp","src/Basis/BasisLagrange.cpp","src/Basis/Basis0101.cpp"],
[("derivative matrix blocks and (2/tau)^n scaling",I+"GSpline.hpp: deriv_impl"),("lazily grown derivative block cache",I+"Basis/Basis.hpp: get_derivative_matrix_block")],
["deriv(n)","derivate(n)"],[("derivative block cache","powers of the derivation operator in the basis",I+"Basis/Basis.hpp")])
p("C07","Splines on the same intervals form a vector space",
"For GSplines that share domain, intervals, basis and codomain, +, -, +=, -=, unary minus and multiplication by a number act pointwise, in every lvalue/rvalue form, without changing lvalue operands; combining splines with different domain, intervals, basis or codomain throws. Two splines compare equal exactly when they have the same domain, intervals, basis, codomain and (up to rounding) coefficients; equality is symmetric and != is its negation.",
["programs","histories","inputs"],"all sequences of vector-space operations over splines of all bases and shapes, and all pairs of splines differing in one attribute",
"The tests add two compatible splines; overloads, chains and one-attribute differences (e.g. a shifted domain) are not explored.",
[I+"GSpline.hpp","src/GSpline.cpp","src/Tools.cpp"],
[("coefficient-wise operations",I+"GSpline.hpp"),("same_vector_space / approx_equal","src/GSpline.cpp, src/Tools.cpp")],["operators","operator=="])
p("C08","Basis values, derivatives, tau-derivatives and Gram matrices are consistent",
"For each basis (Legendre, Lagrange on any distinct nodes, Gauss-Lobatto Lagrange, and the exponential-trigonometric basis 0101) and every window position, interval length and order, the reported derivatives are the derivatives of the reported basis functions with respect to time, the tau-derivatives are their derivatives with respect to interval length, the derivative block maps coefficients of a function to those of its derivative, and the derivative (Gram) matrices and their tau-derivatives are the exact integrals of products of basis derivatives over an interval. A request that a basis does not support throws rather than returning something else.",
["inputs","configurations"],"all bases and sizes, s in [-1,1], tau, derivative orders (also beyond the basis size), node sets",
"The tests compare a few sizes and orders numerically, mostly for Legendre; order/size/node/tau combinations are not swept, and Gram matrices of the Lagrange basis are not checked.",
["src/Basis/Basis.cpp","src/Basis/BasisLegendre.cpp","src/Basis/BasisLagrange.cpp","src/Basis/Basis0101.cpp",I+"Basis/Basis.hpp"],
[("three-term recurrences, barycentric formulas, closed forms","src/Basis/*.cpp"),("derivative block cache",I+"Basis/Basis.hpp")],
["eval_on_window","eval_derivative_on_window","eval_derivative_wrt_tau_on_window","get_derivative_matrix_block","add_derivative_matrix","add_derivative_matrix_deriv_wrt_tau"])
p("C09","Interpolation hits the waypoints, with full continuity and rest-to-rest ends",
"For every even-sized basis, every set of waypoints and positive interval lengths, the interpolating GSpline starts at time 0, has exactly the given intervals, takes the i-th waypoint at the i-th breakpoint, has continuous derivatives up to order dim-2 at every inner breakpoint, and has derivatives 1..dim/2-1 equal to zero at both ends. An odd basis size, an interval length below 1e-6, or data whose sizes do not match are rejected with an exception.",
["inputs","configurations"],"all bases/sizes, numbers of intervals (1, 2, many), codomain dimensions, interval-length patterns and waypoints",
"The tests check random waypoints for one or two sizes; the matrix assembly has separate code for the first, inner and last interval and for a single interval.",
["src/Interpolator.cpp",I+"Interpolator.hpp"],
[("block assembly of the interpolation system","src/Interpolator.cpp: fill_*"),("sparse LU solve","src/Interpolator.cpp: solve_interpolation")],
["interpolate(...)","get_waypoints()","deriv(n) at breakpoints"])
p("C10","Reused solvers and caches are history independent",
"An interpolator, Sobolev-norm evaluator or basis object that has already served any sequence of requests (other interval lengths, other waypoints, sensitivities, matrices of other sizes and orders, failed requests) answers the next request exactly as a freshly created one would, and results already handed out as splines do not change.",
["histories","fault_sequences"],"all sequences of requests, including rejected ones, up to the depth bound, on one long-lived object",
"Objects keep matrices, factor buffers and caches between calls; the tests create a new object for almost every call.",
["src/Interpolator.cpp","src/FunctionalAnalysis/Sobolev.cpp","src/Basis/Basis.cpp",I+"Basis/Basis.hpp"],
[("in-place overwritten sparse matrices and vectors","src/Interpolator.cpp"),("two-level (static/dynamic) matrix caches keyed by sizes","src/Basis/Basis.cpp")],
["results of the k-th call"],[("interpolating matrix/vector and derivative matrices","reused between calls",I+"Interpolator.hpp"),("continuity and derivative matrix caches","keyed by (intervals, codomain, order)",I+"Basis/Basis.hpp")])
p("C11","Coefficient sensitivities to interval lengths are the true derivatives",
"For every interpolation problem and every interval index, the reported derivative of the interpolating coefficients with respect to that interval's length is the exact partial derivative of the coefficients that interpolation returns, for first, inner, last and single intervals. A wrong index or wrong sizes are refused with an exception, not answered.",
["inputs","configurations"],"all bases/sizes, interval counts, indices, codomain dimensions, interval-length patterns",
"Tests compare with finite differences on a few random cases for one size.",
["src/Interpolator.cpp"],[("implicit differentiation of the interpolation system","src/Interpolator.cpp: get_coeff_derivative_wrt_tau")],["get_coeff_derivative_wrt_tau"])
p("C12","The Sobolev cost and its gradient are exact for every weight list",
"For every waypoint set, basis, list of (order, weight) terms and interval lengths, the cost functional equals the weighted sum of the integrals of the squared norm of the derivatives of the interpolating spline, and its reported gradient is the true gradient with respect to the interval lengths.",
["inputs","configurations"],"all bases, waypoint sets, multi-term weight lists (also repeated or zero), interval-length patterns",
"Tests use single-term weights; sums of several terms and gradients of them are never compared with the integral.",
["src/FunctionalAnalysis/Sobolev.cpp","src/Interpolator.cpp","src/Basis/*.cpp"],[("quadratic form over per-interval Gram matrices","src/FunctionalAnalysis/Sobolev.cpp")],["SobolevNorm()","deriv_wrt_interval_len"])
p("C13","Continuity and derivative matrices encode the spline's jumps and derivatives",
"For every basis, number of intervals, codomain dimension, order and interval lengths, the derivative matrix applied to a coefficient vector gives the coefficients of that derivative of the spline, and the continuity matrix applied to it gives, for every order up to the requested one, every inner breakpoint and every component, the left-minus-right jump of that derivative.",
["inputs","configurations","histories"],"all bases, sizes and interval-length patterns, in any sequence of requests on the same basis object",
"Tests check Gauss-Lobatto Lagrange bases with a few sizes; other bases and repeated requests with other lengths are not covered.",
["src/Basis/Basis.cpp"],[("cached sparse templates rescaled by (2/tau)^order","src/Basis/Basis.cpp: continuity_matrix, gspline_derivative_matrix")],["continuity_matrix(...)","gspline_derivative_matrix(...)"])
p("C14","Gauss-Lobatto rules are exact and correctly placed on any interval partition",
"For every n >= 2 the n Gauss-Lobatto points are increasing, symmetric, contain both ends, and with their positive weights integrate every polynomial of degree up to 2n-3 exactly on [-1,1] and on every interval. Composite points and weights over a partition (uniform or not) are these points mapped into each successive interval, so that the composite rule has the same exactness on every subinterval.",
["inputs","configurations"],"all n up to the bound, all intervals, all uniform and non-uniform partitions",
"Tests compare tabulated values for a few n on [-1,1].",
["src/Collocation/GaussLobattoPointsWeights.cpp"],[("Newton iteration on Legendre polynomials and affine maps","src/Collocation/GaussLobattoPointsWeights.cpp")],["legendre_gauss_lobatto_points/weights/points_and_weights"])
p("C15","Integrals and inner products of functions are exact on polynomials and bilinear",
"The numerical integral of a scalar function over its domain with n points on m subintervals is exact for every continuous function that is polynomial of degree at most 2n-3 on each subinterval; L2 and Sobolev inner products and (squared) norms equal the weighted integrals of products of derivatives they denote, for every list of terms, and are symmetric, bilinear and non-negative on the diagonal.",
["inputs","programs"],"all scalar and vector polynomial expressions, domains, rule sizes, subinterval counts, orders and weight lists",
"Tests compare a few integrals.",
["src/FunctionalAnalysis/Integral.cpp","src/FunctionalAnalysis/Sobolev.cpp"],[("composite Gauss-Lobatto quadrature","src/FunctionalAnalysis/Integral.cpp"),("symbolic integrand","src/FunctionalAnalysis/Sobolev.cpp")],["integral","l2_*","sobolev_*"])
p("C16","Collocation splines implement pointwise algebra on their nodes",
"A Gauss-Lobatto collocation spline approximating a function takes the function's values at its collocation points, and one filled from an array takes the given values there; products, quotients, sums, differences, powers, norms, scalar and vector offsets and assignments between collocation splines act node by node, keep domain, partition and shape, and do not change their operands; operands on different grids or of the wrong shape are rejected. Its domain discretization is the list of its collocation points for uniform and non-uniform partitions.",
["programs","inputs","histories"],"all sequences of collocation-spline operations over all shapes (points per interval, intervals, codomain, domain)",
"The collocation tests need an absent dependency in this build and use fixed sizes.",
["src/Collocation/GaussLobattoLagrange.cpp",I+"Collocation/GaussLobattoLagrange.hpp"],[("value-at-node coefficient layout","src/Collocation/GaussLobattoLagrange.cpp")],["operators","value_at","get_domain_discretization"])
p("C17","Linear time scaling keeps the path and respects the bounds",
"Rescaling a GSpline to a new execution time T keeps the domain start, gives total duration T, scales every interval by the same factor, and preserves the path: value at the start plus a fraction of the duration is unchanged for every fraction, for every basis; a time that is not positive is refused. Rescaling to velocity and/or acceleration bounds (given together or alone, as one number or per component) does the same with the smallest factor for which the component speeds and accelerations, sampled with the given time step (no longer than the duration), stay within the bounds: none exceeds its bound and at least one is reached; missing or ill-sized bounds are refused.",
["inputs","configurations"],"all bases, shapes, domain starts, new durations, bound combinations and sampling steps",
"Tests scale a few splines starting at 0 with both bounds given.",
[I+"GSpline.hpp","src/GSpline.cpp"],[("interval-length scaling and basis-parameter adjustment",I+"GSpline.hpp: linear_scaling_*")],["linear_scaling_new_execution_time*"])
p("C18","The Python interface agrees with the C++ library and serialization round-trips",
"Every spline, basis and function reachable from Python evaluates, derives, combines and compares as in C++ and keeps its value when the objects it was made from are garbage collected. Converting any basis or spline to its serialized form (also through JSON) and back gives an equal object that evaluates identically; a dictionary with a missing or ill-typed entry is refused. Arrays handed to Python stay as they were when the object they came from is used again, changed or collected, and the memory layout or numeric type of the arrays passed in does not matter.",
["programs","histories","inputs"],"all sequences of Python operations up to the bound over all bases and shapes",
"Python tests exercise a few calls; object lifetimes across the binding and round trips of every basis are not covered.",
["bindings/bindings.cpp","python/gsplines/serialization.py","python/gsplines/__init__.py"],[("pybind11 bindings","bindings/"),("dict conversion","python/gsplines/serialization.py")],["Python API"])
p("C19","Changing Lagrange nodes preserves the polynomial",
"For all sets of distinct old nodes and arbitrary new points (also coinciding with old nodes, also repeatedly), the change-of-points matrix maps the values of every polynomial of degree below the number of old nodes to its values at the new points, and the node derivative matrices of every order map them to its derivatives at the nodes.",
["inputs","configurations"],"all node sets and new-point sets over the alphabet, including partial overlap in any order",
"Tests use disjoint random point sets, where no coincidence occurs.",
["src/Basis/BasisLagrange.cpp"],[("barycentric interpolation (Kopriva alg. 30-38)","src/Basis/BasisLagrange.cpp")],["barycentric_weights","derivative_matrix","change_interpolation_points"])
p("C20","Independent objects do not interfere under any interleaving",
"When several threads each build, evaluate, derive, interpolate and integrate with objects of their own (including copies, clones and results computed beforehand from a common original), every thread obtains, under every interleaving, the results it obtains when it runs alone.",
["schedules"],"all interleavings of the threads' memory accesses within library code, over pairs of library operations",
"No test runs two threads; a shared scratch buffer or cache (for example one hidden behind a clone) is invisible to any sequential test.",
["src/","include/gsplines/"],[("no mutable state outside objects; clones own deep copies","src/Functions/FunctionExpression.cpp, src/GSpline.cpp, src/Basis/*")],["results per thread"],[("scratch buffers","mutable members used during const evaluation",I+"GSpline.hpp, "+I+"Basis/*.hpp")])
p("C21","Optimization problems are faithful and solver answers are not misreported",
"The optimal-interval problem handed to the nonlinear solver has one positive-bounded variable per interval, a constraint fixing their sum to the requested time, and a cost and gradient equal to the Sobolev cost and its gradient at every iterate; each named path front-end uses its documented basis and weights. The returned spline interpolates the waypoints with exactly the solver's interval lengths, and nothing is returned when the solver does not report success; solver options take the last value set.",
["configurations","fault_sequences","histories"],"all solver statuses and iterates in the alphabet, all front-ends, all option-setting sequences up to the bound",
"The solver is absent in this build, so no test reaches this code.",
["src/Optimization/ipopt_interface.cpp","src/Optimization/ipopt_solver.cpp"],[("ifopt variable/constraint/cost sets","src/Optimization/ipopt_interface.cpp"),("front-ends and option store","src/Optimization/ipopt_solver.cpp")],["problem handed to the solver","returned optional"])
p("C22","Collocation functionals are the operators they are named after",
"Applied to the node values of a collocation spline, the derivative, integral, matrix-multiplication and continuity operators give the node values of the derivative, the integral, the products and the jumps; sums, differences, products, negatives and multiples of operators act accordingly and data of the wrong shape is refused; the Sobolev distance (of order 1) and the constraint/cost wrappers report the value, bounds and the exact Jacobian at every point, also after the operator has been updated for other data.",
["inputs","configurations","histories"],"all shapes, partitions (uniform or not), matrices and update sequences in the bound",
"The code needs an absent dependency in this build, so no test reaches it.",
["src/Collocation/GaussLobattoLagrangeFunctionals.cpp",I+"Collocation/GaussLobattoLagrangeFunctionals.hpp"],[("sparse operator assembly",I+"Collocation/GaussLobattoLagrangeFunctionals.hpp")],["operator application","GetJacobian"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema, sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
