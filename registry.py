"""What each property's check is made of."""
EX = "explicit enumeration of executions of the real code against an independent reference model"


def c(n, what, bounds, deep, note="", **kw):
    d = dict(sources=["harness/c%02d.cpp" % n], level="model_checking", technique="model checking: " + what,
             bounds=bounds, bounds_thorough=deep,
             note=note or "Every behaviour within the stated bounds is executed on the real library and compared with a "
             "reference model written from the definitions (long double, no library code); nothing is claimed beyond the "
             "bounds or beyond the value alphabet.")
    d.update(kw)
    return d


CHECKS = {
    "C01": c(1, "bounded-exhaustive enumeration of expression trees, each built and evaluated on the real library",
             "all trees of depth 2 over the elementary pool and all operators, depth 3 over a reduced pool; n-ary chains of up to 9 operands; special values, codomains to 17, points beside breakpoints, long point lists",
             "depth 3 over a larger pool"),
    "C02": c(2, "bounded-exhaustive enumeration of expression trees and derivation orders",
             "trees of depth 2, orders 0..4, split into all compositions of the order; n-ary chains of up to 9 operands; special operands and scalars", "deeper trees, orders 0..6"),
    "C03": c(3, "breadth-first search over operation histories on a heap of live function objects with state hashing",
             "histories of 1-2 operations after a first one over all operator overloads; every pair of operand kinds; n-ary chains of up to 9 operands as operands; self-combination", "histories of 4 operations"),
    "C04": c(4, "exhaustive enumeration of operand pairs x operators x overloads", "every pair of the operand pool", "larger pool"),
    "C05": c(5, "exhaustive enumeration of spline shapes and evaluation points", 
             'every combination of 26 bases (Legendre 1..9, Gauss-Lobatto, Lagrange on uneven/unsorted nodes, 0101), 1..24 intervals, codomain 1..3, 8 length patterns (equal, almost equal, very different) and 4 domain starts (half of the grid, by parity); points: ends, breakpoints, both sides of them, interiors, outside, as single points and as ordered/reversed/shuffled/repeated lists',
             'all 44 bases, up to 40 intervals, 5 starts, the full grid'),
    "C06": c(6, "exhaustive enumeration of spline shapes and derivation sequences", 
             '26 bases x intervals x codomain x length patterns x starts (a third of the grid), every order 0..min(dim+2,11), every split of an order into two, on original, copy and clone',
             '44 bases, the full grid, orders up to 16'),
    "C07": c(7, "exhaustive enumeration of operand pairs and operation sequences over splines", 
             'every operator form x 1872 shapes; every one-attribute difference for refusal and equality, also of zero, large, small and single-coefficient splines; every history of 3 operations over three live splines for 26 bases',
             'every history from 4 initial configurations, 44 bases, full grids'),
    "C08": c(8, "exhaustive enumeration of bases, positions, lengths, orders and request orders", 
             '44 bases x 6 interval lengths x (10 window positions + 13 beside each node) x orders 0..dim+2; Gram matrices and tau-derivatives on originals, clones and moved clones; derivative blocks in 4 request orders',
             '9 interval lengths'),
    "C09": c(9, "exhaustive enumeration of interpolation problems (unit impulses span the waypoint space) and refusals", 
             '16 even bases x 1,2,3,4,8,19 intervals x codomain 1,2,3,7 x 7 length patterns; unit impulses span all waypoint sets; 27 extreme length patterns; every kind of wrong shape',
             '23 bases, up to 16 intervals'),
    "C10": c(10, "stateless exploration of every request sequence up to a depth on live objects against fresh ones", 
             'every request sequence of length 4 over the request alphabet of an interpolator (K=10), a Sobolev evaluator, a basis and a spline; plus every ordered pair of almost-equal requests, and of requests differing in one entry, asked a,b,a',
             'sequences of length 5-6, more shapes'),
    "C11": c(11, "exhaustive enumeration of interpolation problems, indices and request orders", 
             '16 bases x 1,2,3,4,6,11 intervals x codomain 1,2,3,7 x 7 length patterns, every index, forwards, backwards, on fresh objects and on objects last used for other lengths; refusals',
             '23 bases, up to 10 intervals, codomain 7'),
    "C12": c(12, "exhaustive enumeration of weight lists, problems and iterate sequences", 
             '16 bases x 1,2,4,9 intervals x codomain 1,2,3,8; every weight list of up to 3 terms; every path of 3 iterates over a grid of interval lengths on one object',
             '23 bases, lists of up to 4 terms'),
    "C13": c(13, "exhaustive enumeration of matrix requests and of request pairs on one object", 
             '26 bases x 1,2,3,5,9 intervals x codomain 1,2,3,7, every order to min(dim+1,8), 3 request orders; every ordered pair of requests of different shapes, or with almost equal lengths, on one basis object',
             '44 bases, up to 13 intervals, codomain 7, orders to 12'),
    "C14": c(14, "exhaustive enumeration of rules, partitions and monomials", 
             'rules of 2..64 points; every monomial/Legendre degree to 2n-3; 336 uniform grids; every partition into up to 5 pieces over a 3-length alphabet; partitions into 4..33 pieces with one odd piece at each position',
             'rules to 150 points, partitions to 6 pieces'),
    "C15": c(15, "exhaustive enumeration of functions, rules and term lists", 
             'every function of the pool x every rule that must be exact x every pair x every term list of up to two terms and structured longer ones',
             '4 weights, orders to 5'),
    "C16": c(16, "exhaustive enumeration of collocation grids, operand pairs and operation sequences", 
             '480 grids (codomain, 1..4 intervals, 2..6 points, 5 length patterns, 2 starts); 42x42 operand pairs x all operators and overloads; every history of 3 operations on three live objects',
             '5 intervals, 8 points, histories of 4 operations'),
    "C17": c(17, "exhaustive enumeration of splines, target times and bound combinations", 
             '26 bases x 1..4 intervals x codomain x patterns x starts x target times; every combination of (active, inactive, absent, far looser, far tighter) velocity and acceleration bounds per component on 1053 splines',
             '44 bases, 5 intervals'),
    "C18": c(18, "bounded-exhaustive exploration of Python programs (expressions, operation histories with garbage collection, "
             "round trips) on the real extension module built with AddressSanitizer",
             "every pair of the function pool x every operator; expression trees of depth 2; every history of 2 of 24 steps from 4 initial "
             "configurations, with all registers observed after every step; every basis x shape x array form for splines, round trips, "
             "interpolation, costs, inner products and Gauss-Lobatto rules",
             "histories of 3 steps, all spline shapes, rules to 60 points", python="harness/c18.py", sources=[]),
    "C19": c(19, "exhaustive enumeration of node sets and new-point patterns", 
             'all node sets of up to 5 points from a 9-point alphabet, all orderings of small ones, Gauss-Lobatto and uniform sets, scaled by 1e-3..100 and shifted; all new-point lists of length <= 3 (matching, beside, between, outside, repeated)',
             'node sets of up to 7 points'),
    "C20": c(20, "stateless exploration of thread interleavings of the real library under a controlled scheduler, with partial-order "
             "reduction by recorded memory footprints", "every pair of 53 two-thread programs (copies, clones and results of a common original, or fresh objects): both serial orders "
             "with full memory footprints, and every schedule with 1 preemption (2 when there are at most 14 conflicting accesses) at "
             "conflicting accesses",
             "every ordered pair; 2 preemptions up to 60 conflicting accesses, 3 up to 14",
             note="Scheduling points are the accesses of library code to locations both threads use; accesses inside the C and C++ runtime "
             "libraries are not seen, and sequential consistency is assumed.", variant="trace",
             sources=["harness/c20.cpp", "harness/c20_rt.cpp"], instrumented=["harness/c20.cpp"],
             link=["-Wl," + ",".join("--wrap=" + s for s in (
                 "memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
                 "pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock"))]),
    "C21": c(21, "exhaustive enumeration of solver behaviours (iterates, answers, return codes) and of option-setting sequences",
             "56 front-ends x 1,2,3,5,7 intervals x codomain 1..3; every answer over a 3-share alphabet with success after 2 iterate "
             "sequences, all 19 return codes; every sequence of 3 cost/gradient/constraint/Jacobian requests over 3 points; every sequence of 3 of 14 option settings",
             "up to 8 intervals, codomain 7, all iterate sequences, 4 option settings",
             note="Ipopt and ifopt are absent: the ifopt interface is a stand-in (ifopt_shim) whose solver does what each case says; that Ipopt "
             "itself converges is not claimed.", ifopt=True, variant="plain"),
    "C22": c(22, "exhaustive enumeration of grids, operators, matrices and update sequences",
             "grids of 2..6 points, 1..4 intervals, codomain 1..3, 5 length patterns, 2 domain starts; every operator after every "
             "sequence of up to two updates (order of derivative 0..3); every pair of iterates of the Sobolev distance and of the "
             "constraint and cost terms; sums, differences, products, negatives and multiples of operators; wrong shapes",
             "2..9 points, up to 5 intervals",
             note="ifopt is absent: its interface is a stand-in (ifopt_shim); SobolevDistance ignores its order argument and is always of "
             "order 1, which is what is checked.", ifopt=True),
}
