"""The checks: how many runs, how cases are made, what is real."""

REAL = ['all of pykrylov (solvers, linear, block and L-BFGS operators, utilities), '
        'translated from /repo by 2to3', 'numpy', "Python's logging.Logger"]
STUB = ['matrix products inside user callbacks (dense matrices)', 'log handlers',
        'standard output and error', 'thread scheduling', 'the clock']
ASSUME = ['the translation to Python 3 run on PyPy keeps the meaning of the Python 2 code '
          '(it is the one the repository is built and tested with here)',
          'preemption is explored at device calls, operation boundaries and source lines, '
          'not inside one bytecode or one numpy call']


def entry(quick, thorough, rule, **kw):
    return dict(quick=quick, thorough=thorough, rule=rule, real=kw.get('real', REAL),
                stub=kw.get('stub', STUB), assumptions=ASSUME + kw.get('assume', []))


CHECKS = {
    'C01': entry(8000, 80000,
                 'histories of 1-4 solves on one solver object over systems, preconditioners, '
                 'metrics, shifts, tolerances and scales, with transient NaN/Inf products and '
                 'rounding noise; every claim is compared with dense linear algebra; '
                 'non-trivial: at least one claim was made'),
    'C02': entry(9000, 200000,
                 'solves with budgets from 0 up on well-posed, singular, rank-deficient, '
                 'badly scaled and wrongly described systems, with devices that return NaN, '
                 'Inf, zeros, huge, tiny, negated, unsymmetric or random vectors once or '
                 'always; products counted by the devices; non-trivial: a hostile device or a '
                 'budget used up'),
    'C03': entry(2000, 40000,
                 'histories of 2-7 solves and products on shared solver and operator objects, '
                 'most of them cut short by an exception from a device or handler call or by '
                 'an interrupt at a drawn line; non-trivial: at least one failure struck'),
    'C05': entry(1700, 40000,
                 'each solve run plain, with broken standard output, and watched in three of '
                 'eleven ways (loggers and levels, operator loggers, a root handler, show, '
                 'stored iterates and residuals); stored iterates compared with solves that '
                 'stop there; non-trivial: at least one watched solve'),
    'C06': entry(650, 60000,
                 '1-3 clients that solve, multiply, check operators (clear and borderline) and '
                 'draw from or reseed the global generators, the callbacks too, under random '
                 'schedules; draws compared with shadow generators, outcomes with runs under '
                 'another seed; non-trivial: library work between draws of the global stream'),
    'C07': entry(1400, 60000,
                 'programs of 2-14 steps (stores of all layouts, rejections, malformed pairs, '
                 'interrupted stores and products, restarts, thresholds, parallel products) on '
                 'the inverse, forward and compact operators together, each compared after '
                 'every step with the dense BFGS matrix; non-trivial: at least one store'),
    'C08': entry(2000, 60000,
                 'programs of 2-13 steps on a block or block diagonal operator (edits of '
                 'blocks and slices, interrupted, refused, of the wrong shape or raced by a '
                 'product; sub-operators and transposes taken and kept; lists of blocks '
                 'changed), everything multiplied after each step and compared with the '
                 'dense grid; non-trivial: at least one edit'),
    'C09': entry(5000, 100000,
                 'random expressions (depth up to 4) over leaf, array, diagonal, identity, '
                 'zero, coordinate, L-BFGS and block operators, real and complex; programs of '
                 'products in every form and input layout, of T/H/bar in every order, taken '
                 'before and after parts change, fail or are interrupted, and of products in '
                 'parallel; compared with the dense matrix; non-trivial: a composite'),
    'C10': entry(5000, 100000,
                 'half: 2-10 products with composites over callbacks that return their '
                 'argument, a view of it, a reused, read-only, strided or foreign array, the '
                 'memory of results, arguments, buffers and caller arrays overwritten in '
                 'between; half: 1-3 solves over such callbacks, compared bit for bit with '
                 'well-behaved ones, with everything they left behind watched while rhs, '
                 'guess, buffers and solutions are overwritten; non-trivial: any'),
    'C11': entry(5000, 200000,
                 'pools of 2-6 operators built from one another with repetitions; 1-3 clients '
                 'multiply (also T, H, bar), fail, reset, inspect, build, convert, check and '
                 'solve, products inside products; every counter compared with the number of '
                 'products by definition and, for leaves, by the devices; non-trivial: a '
                 'product'),
    'C12': entry(2200, 40000,
                 'histories of 3-8 solves on one solver object (successful, cut off, diagnosed, '
                 'fed garbage or failed), each compared bit for bit with a new object; '
                 'non-trivial: a completed solve that is not the first'),
    'C04': entry(2000, 50000,
                 '2-4 clients in simulated threads that share operators, preconditioners, '
                 'vectors and loggers, under random schedules at device calls and, in a third '
                 'of the runs, source lines; non-trivial: at least two switches or a nested '
                 'solve'),
    'C15': entry(5000, 60000,
                 'histories of 1-4 solves by CG, MINRES and SYMMLQ, one client or two, on an '
                 'operator and preconditioner that are suitable for some solves and not for '
                 'others, change at a product or answer one wrongly; every product recorded; '
                 'non-trivial: a diagnosis made or due'),
    'C13': entry(3000, 60000,
                 'a clean solve of a well-conditioned system after 0-3 attempts on the same '
                 'solver that were cut short by a raised error, an interrupt at a line, wrong '
                 'products or a budget, restarted from the last iterate or afresh, one client '
                 'or two; compared with the exact solution; non-trivial: an attempt cut short'),
    'C14': entry(3500, 40000,
                 'a solve that stores its history, after 0-2 faulted solves on the same object '
                 'and beside another client, then cut by budgets, by looser tolerances and at '
                 'the same step by budget; every number compared with dense algebra at every '
                 'iterate; non-trivial: at least two steps'),
    'C17': entry(3000, 60000,
                 'a solve (each budget of it for methods that store no iterates) after 0-2 '
                 'faulted solves on the same object and beside another client; its first '
                 'eight iterates compared with the minimisers over dense orthonormal bases '
                 'of their Krylov subspaces, or the textbook recurrences while those are '
                 'safe; non-trivial: an iterate compared'),
    'C16': entry(4000, 60000,
                 'a solve under one loose or tight criterion (tolerances, direct error '
                 'windows, condition limits, budgets) or several, after 0-2 faulted solves on '
                 'the same object and beside another client; the criteria measured at every '
                 'iterate by dense algebra and textbook Lanczos processes; non-trivial: a '
                 'nonzero right-hand side'),
    'C18': entry(3000, 60000,
                 'a solve by LSQR, LSMR, MINRES or SYMMLQ and the same one cut by up to three '
                 'budgets, after 0-2 faulted solves on the same object and beside another '
                 'client; the estimates of norm, condition and variances compared with those '
                 'of textbook Lanczos and Golub-Kahan matrices of as many steps; non-trivial: '
                 'an estimate compared'),
}
