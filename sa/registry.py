"""Which functions decide which property."""

import importlib

TRUSTED = [
    'CPython ast module',
    'the abstract interpreter and library models in /verif/sa',
]
ASSUMPTIONS = [
    'real arithmetic where terms are rearranged (no rounding); NaN is kept '
    'track of in comparisons',
    'numpy, scipy and h5py functions behave as modelled in sa/ext.py',
    'options are not changed by the objective during a run',
]


class Spec:
    def __init__(self, funcs, title, level='other', note='', technique=''):
        self.names = funcs.split()
        self.title = title
        self.level = level
        self.note = note
        self.technique = technique

    def funcs(self):
        out = []
        for n in self.names:
            m, f = n.split('.')
            out.append(getattr(importlib.import_module(
                'sa.checks.' + m), f))
        return out


CHECKS = {}


def add(prop, funcs, title='', note='', technique='', level='other'):
    CHECKS[prop] = Spec(funcs, title, level, note, technique)


GVN = ('abstract interpretation of the source (gated value numbering with '
       'BDD guards), {}')
LOOP = GVN.format('dataflow obligations over one arbitrary iteration')

add('C01', 'bounds.c01', 'bounds gate',
    'Optimizer.__init__ and minimize() are interpreted abstractly for every '
    'Hessian scheme and for an arbitrary state left over by earlier calls. '
    'Obligations: the path conditions of the first evaluation, of entering '
    'the loop and of adopting a trial point exclude every point with a '
    'coordinate outside of (or not comparable with) its bounds, and the '
    'paths on which such a point occurs raise RuntimeError with exit flag '
    'EXCEEDED_BOUNDARY.', LOOP)
add('C03', 'bounds.c03', 'inward move',
    'The term of the evaluated start point, of the first iterate and of '
    'every adopted point is compared elementwise with the point before the '
    'move: constant tiny shifts, of the right sign, exactly under the guard '
    '"on the bound"; no array store goes into an array that has the element '
    'type of an argument.', LOOP)
add('C04', 'loop.c04', 'strict decrease',
    'The guard under which x, fval and grad are replaced in an iteration '
    'implies that the new value is finite and, by sign reasoning on one of '
    'its literals, smaller; the replaced value is the evaluated one; the '
    'first and the returned value are those of the start point and of the '
    'current solution.', LOOP)
add('C05', 'loop.c05', 'rejected steps change nothing',
    'Every memory location that value, point, gradient, Hessian and scheme '
    'state depend on over iterations (a closure over the loop-carried '
    'dependences, trackers such as radius and counters aside) has its old '
    'value at the end of every iteration whose trial point is not adopted.',
    LOOP)
add('C06', 'loop.c06', 'results belong together',
    'Terms of value, gradient, Hessian and point before the first '
    'iteration and after an accepted step are those of one evaluation event '
    '(the Hessian that of get_mat() of the scheme); the returned tuple '
    'holds these four fields in the documented order.', LOOP)
add('C07', 'loop.c07', 'best point',
    'Terms of x_min, fval_min and grad_min at the end of an iteration are '
    'the new evaluation exactly if it is finite and smaller, and the old '
    'ones otherwise; they start with the start point and are not changed '
    'after the loop.', LOOP)
add('C08', 'loop.c08', 'non-finite output',
    'Path conditions of the loop entry, of the step computation and of the '
    'end of an iteration exclude the listed non-finite outputs, all paths '
    'with such output raise RuntimeError with exit flag NOT_FINITE, and a '
    'non-finite value is rejected and shrinks the radius by a NaN-safe '
    'minimum.', LOOP)
add('C09', 'loop.c09', 'convergence tests',
    'The term of converged at the end of an iteration equals the disjunction '
    'of the documented tests (evaluated by the same interpreter from a '
    'reference text); guards of the exit flags imply their tests; the loop '
    'is left if converged and the flags are not changed afterwards.', LOOP)
add('C10', 'loop.c10', 'limits',
    'One evaluation and one count per iteration; the path condition of the '
    'step computation is exactly "no limit reached", for the first and for '
    'later iterations, with the clock read in the iteration; guards of the '
    'exit flags imply their limits.', LOOP)
add('C12', 'loop.c12', 'radius update',
    'Terms of radius and ratio at the end of an iteration equal the '
    'documented case distinction (reference text evaluated by the same '
    'interpreter), the radius handed to the step computation is the current '
    'one, it starts at delta_init and is kept after the loop.', LOOP)
add('C16', 'run.c16', 'Coleman-Li terms',
    'The arguments that the interpreted Optimizer hands to the step '
    'computation (scaling matrix, scaled gradient, diagonal of Jacobian '
    'terms) are compared as normalised terms with the documented '
    'Coleman-Li formulas over the point and gradient of the same iteration, '
    'in the first and in an arbitrary later iteration.', LOOP)
STEP = GVN.format('term comparison for every candidate step that the step '
                  'computation creates')
add('C02', 'steps.c02', 'step back',
    'trust_region() is interpreted for every subspace solver and stepback '
    'strategy. For each candidate the scaled and unscaled form of its last '
    'segment must be the original segment times min(1, theta*minbr) with '
    'the documented break points from the point where the segment starts, '
    'nothing writes to it afterwards, reflected and truncated candidates '
    'start on their previous segments, and theta and the evaluated point '
    'are checked in the interpreted Optimizer for every scheme.', STEP)
add('C13', 'steps.c13', 'best of all candidates',
    'For every solver and strategy the list that the result of '
    'trust_region() is chosen from is compared with the candidates that '
    'were created (guards included), the values compared are their '
    'predicted values, and the candidates that the strategy requires are '
    'present under every path condition on which a bound was hit.', STEP)
add('C14', 'steps.c14', 'model value',
    'For every candidate the model value equals the documented quadratic '
    'at the sum of its scaled segments as stepped back, scaled and unscaled '
    'forms of each segment correspond through the scaling matrix, and the '
    'Optimizer uses the value and the displacement of the chosen one.', STEP)
UPD = GVN.format('term normal forms of the update of every scheme')
add('C17', 'schemes.c17', 'secant equation',
    'update() of every scheme is interpreted on symbolic data in an '
    'arbitrary state left by earlier updates; the new matrix is compared, '
    'as normalised rational matrix term under its guard, with the '
    'documented formula, for which the secant equation (plain or '
    'structured) is derived by term rewriting; that of a structured scheme '
    'also with the combination of supplied matrix and structured part.',
    UPD)
add('C18', 'schemes.c18', 'symmetry',
    'The term of every matrix a scheme holds after construction, '
    'initialisation and update is compared with its transpose, assuming '
    'symmetric matrices before, under the guard of each case.', UPD)
add('C19', 'schemes.c19', 'curvature condition',
    'The guard under which the interpreted update of BFGS and DFP changes '
    'the matrix is compared with the documented curvature conditions; '
    'otherwise matrix and change terms must be the old matrix and zero.',
    UPD)
add('C20', 'schemes.c20', 'reported changes',
    'get_diff() and get_structured_diff() after an update of every scheme '
    'are compared with the difference of the terms of get_mat() after and '
    'before it, on every path, skipped updates and failures included.', UPD)
add('C21', 'schemes.c21', 'switching',
    'For every hybrid scheme and inner approximation the term of the matrix '
    'after an update is compared, case by case, with the documented switch '
    'over its counters and contractions; flags that record a switch are '
    'monotone.', UPD)
add('C33', 'schemes.c33', 'initial matrices',
    'get_mat() after the interpreted _init_mat() and set_mat() of every '
    'scheme (and of the scheme inside a hybrid) is compared with the term of '
    'the given matrix or the identity; the path conditions of return and '
    'error are decided for each kind of shape; the Hessian at the entry of '
    'the main loop of an interpreted run is compared, case by case, with '
    "hess0, the objective's Hessian and the identity. An update from these "
    'states must not store into arrays that have the element type of the '
    'given matrix.', UPD)
add('C34', 'schemes.c34', 'default parameters',
    'Every scheme is interpreted twice, with parameters left out and with '
    'the documented values, the rest symbolic; all matrices and all state '
    'after an update must be equal terms. Objects reachable from two '
    'hybrids are disjoint; the path condition of the warning is compared '
    'with phi < 0 or phi > 1.', UPD)
add('C22', 'run.c22', 'data of updates',
    'Each call of update() of the interpreted Optimizer is found as an '
    'event; its arguments are compared with step, gradient difference, '
    'residuals and Jacobians of the accepted evaluation and the one before '
    'it, and its path condition with acceptance.', LOOP)

EFF = GVN.format('effect and ownership analysis of the events of a run')
add('C23', 'api.c23', 'option validation',
    'The constructor is interpreted once per option, way of naming it and '
    'kind of value (symbolic number, integer, NaN, member, string, path, '
    'list, None, ...); whether it raises, and what, is compared with the '
    'documented domain on every path.',
    GVN.format('case analysis over kinds of values'))
add('C24', 'state.c24', 'options take effect',
    'All lookups of options in the interpreted constructor and run are '
    'collected as terms: keys must be documented, the default must be the '
    'documented one and be used exactly if the key is absent; for each '
    'option the values that other checks specify (limits, tolerances, '
    'radius rule, solver and strategy) are terms over this lookup.', LOOP)
add('C25', 'api.c25', 'objective and settings checks',
    'The path conditions of the ValueErrors of the interpreted constructor, '
    'of the evaluation of the objective, of the start of a run and of the '
    'initialisation of schemes are compared with the documented '
    'conditions: paths that go on exclude all of them, and paths that '
    'raise imply one.', LOOP)
add('C26', 'state.c26', 'independence of runs',
    'minimize() is interpreted from a state in which all fields have '
    'arbitrary stale values; no argument of an evaluation, path condition, '
    'returned value or public result field may depend on a stale value, '
    'whether the run returns or raises, and no loop of the run may use such '
    'a value at its entry.', EFF)
add('C27', 'state.c27', 'array isolation',
    'Array objects are tracked by identity: no write goes to an array of '
    'the caller, and nothing that the run or scheme uses later reads an '
    'array which the caller or objective can reach, the possible writes of '
    'the objective included.', EFF)
add('C28', 'state.c28', 'determinism',
    'No term that evaluated points, path conditions (time limit aside) or '
    'results depend on contains a value read from the process, machine, '
    'clock, random generator, hash or set order.', EFF)
add('C29', 'state.c29', 'no shared state',
    'No event of construction, run, update or step computation writes to '
    'module or class data, to functions or default objects; logger names '
    'are injective in a counter that is advanced and read in one region '
    'of a module level lock, or otherwise unique.', EFF)
add('C30', 'state.c30', 'exceptions pass',
    'For each evaluation the exception it may raise is followed through '
    'handlers, finally blocks and context managers to the end of '
    'minimize(): it leaves as the same object and no evaluation happens '
    'after it.', EFF)
add('C31', 'state.c31', 'history',
    'Every list written to the history file grows by exactly one entry in '
    'each iteration on every path, starts empty in each run, is written '
    'once under the start id in append mode on every returning path, and '
    'the entries named in the property equal the terms of the iteration.',
    LOOP)
add('C32', 'state.c32', 'residual objectives',
    'Terms of value, gradient and Hessian after each evaluation of the '
    'interpreted run, for residual and other objectives, are compared with '
    'the documented ones of the same evaluation event; the arguments of '
    'the call are the point and the extra arguments.', LOOP)
add('C15', 'solve.c15', 'subproblem solutions',
    'The subproblem solvers are interpreted on symbolic data. For each '
    'return case the guard implies the bound on the norm of the returned '
    'term, or the term is rescaled to it; returned terms are normalised '
    'and compared with the documented solutions for the same multiplier, '
    'boundary roots with the roots of the quadratic; the radius and offset '
    'at each call in step computation is compared with what is left.',
    GVN.format('guard entailment and normal forms of returned terms'))
add('C11', 'solve.c11', 'loops end',
    'Every loop met in the interpretation of step computation, solvers, '
    'updates, construction and run is given a ranking: it iterates over a '
    'collection whose length is a constant or a size and which does not '
    'grow, or an integer counter moves by constant steps on every path '
    'that goes on towards a bound of such length that the path condition '
    'tests. Recursion is not accepted.',
    GVN.format('ranking functions for loops'))
add('C35', 'space.c35', 'search directions',
    'Construction of every candidate class is interpreted on symbolic data '
    'and the columns of its subspace are compared, up to length and sign, '
    'with the documented directions under the path condition of each case '
    '(definiteness, length of the Newton step, vanishing second direction). '
    'For conjugate gradients one iteration from arbitrary iterates is '
    'compared with the recurrences, and each way to leave with its '
    'condition; for the refinement the functions and constraints handed to '
    'the minimizer are interpreted and compared with model, radius and '
    'bounds.', STEP)
