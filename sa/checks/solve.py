"""Subproblem solvers: C15 (results within the trust region)."""

from fractions import Fraction

from .steps import *  # noqa: F401,F403
from .steps import (candidate_classes, step, fld, cloc, obeq, short, dense,
                    T, mk)
from .loop import run, ALL, label, MIN
from .state import solver, SOLVERS, parts
from ..terms import (norm_, lin_items, from_lin, mono_items,
                     _atoms, support, subterms, subst, entails, restrict,
                     split_scalar, rational_equal, powr, div, minmax)
from ..interp import AnalysisError

ND, D1, BND = SOLVERS
TOL = Fraction(1, 10**6)


# ------------------------------------------------------------ norm bounds
def within(n, delta):
    """n <= delta (1 + TOL) by its own form, for delta >= 0."""
    if n is delta or n is abs_(delta) or n is ZERO:
        return True
    q = div(n, delta)
    v = numval(q)
    if v is not None:
        return v <= 1 + TOL
    its = lin_items(n)
    if len(its) == 1 and 0 < its[0][1] <= 1:
        for b, k in mono_items(its[0][0]):
            if b.op == 'min' and k == 1:
                rest = div(its[0][0], b)
                xs = b.args[0] if isinstance(b.args[0], tuple) else b.args
                if any(mul(rest, x) is delta for x in xs):
                    return True
    return False


def bounds(n, delta, g):
    """The disjunction of the literals of g that imply n <= delta + TOL."""
    out = FALSE
    for p in (1, 2):
        d = sub(powr(n, p), powr(delta, p))
        its = dict(lin_items(d))
        big = [m for m in its if m is not ONE and m is not powr(delta, p)]
        if len(big) != 1:
            continue
        big = big[0]
        for v in support(g):
            a = _atoms[v]
            if a.op not in ('lt0', 'le0'):
                continue
            e = a.args[0]
            c = dict(lin_items(e)).get(big)
            if c is None:
                continue
            k = Fraction(its[big]) / c
            # a: e <= 0, not a: e >= 0
            for lit, s in ((atom(a), 1), (~atom(a), -1)):
                if k * s < 0:
                    continue
                rest = dict(lin_items(sub(scale(e, k), d)))
                # n - delta = k e - rest <= - rest
                ok = all(m in (ONE, delta, powr(delta, p)) and c2 >= -TOL
                         for m, c2 in rest.items())
                if ok:
                    out = out | lit
    return out


def bounded(s, g, delta):
    """g implies that s is no longer than delta."""
    for h, x in pairs(s):
        q = g & h
        if not sat(q):
            continue
        for h2, n in pairs(norm_(x)):
            q2 = q & h2
            if not sat(q2):
                continue
            if within(n, delta):
                continue
            if not entails(q2, bounds(n, delta, q2)):
                return False
    return True


# ---------------------------------------------------------------- C15
def retcases(r):
    v = r.eng.content(r.ret, r.st)
    return pairs(v)


FORMS = [
    'e = w + lam\nreturn V.dot(np.where(e != 0, -(V.T.dot(g)) / e, '
    '-(V.T.dot(g))))',
    'return V.dot(-(V.T.dot(g)) / (w + lam))',
    'return np.linalg.solve(B + lam * np.eye(len(g)), -g)',
    'return -np.linalg.solve(B + lam * np.eye(len(g)), g)',
    'return np.linalg.solve(B, -g)', 'return -np.linalg.solve(B, g)',
]


def solutions(r, lam):
    st = r.st.fork()
    st.pc = TRUE
    out = []
    B = sym('B', rank=2)
    for f in FORMS:
        if lam is not ZERO and 'solve(B,' in f:
            continue
        try:
            env = dict(
                B=box(r.eng, st, r.eng.content(r.args['b'], r.st)),
                g=box(r.eng, st, r.eng.content(r.args['g'], r.st)),
                w=box(r.eng, st, mk('call', 'eigvals', r.eng.content(
                    r.args['b'], r.st))),
                V=box(r.eng, st, mk('call', 'eigvecs', r.eng.content(
                    r.args['b'], r.st))), lam=lam)
            out.append(spec(r.eng, st, f, **env))
        except AnalysisError:
            pass
    return out


def root_terms(t):
    seen = set()
    for x in subterms(t):
        if x.op == 'call' and isinstance(x.args[0], str) and (
                x.args[0].startswith('scipy.optimize.')):
            if x not in seen:
                seen.add(x)
                yield x


def c15(ctx):
    nd(ctx)
    one(ctx)
    boundary(ctx)
    uses(ctx)


def nd(ctx):
    r = solver(ctx, ND)
    w = loc(r.eng, 'fides.subproblem:' + ND)
    delta = sym('delta', rank=0, notnone=True)
    delta = r.args['delta']
    B = r.eng.content(r.args['b'], r.st)
    ev = mk('call', 'eigvals', B)
    posdef = lt(ZERO, reduce_minmax('rmin', ev))
    interior = solutions(r, ZERO)
    n = 0
    for g, v in retcases(r):
        if not sat(g):
            continue
        if v.op != 'tuple' or len(v.args[0]) != 2:
            raise AnalysisError(f'{ND} does not return step and type')
        S = r.eng.content(v.args[0][0], r.st)
        for h, s in pairs(S):
            q = g & h
            if not sat(q):
                continue
            n += 1
            kind = str(v.args[0][1])
            ctx.ob('no returned step is longer than the radius', f'{w}: '
                   f'result {kind}', bounded(s, q, delta),
                   f'step {show(s, 5)[:300]} is returned when '
                   f'{showb(q, 5)[:500]}, which does not bound its norm by '
                   'the radius')
            isint = any(equal(s, f, q) for f in interior)
            zero = not sat(q & ~eqn(delta, ZERO))
            if isint and not zero:
                ctx.ob('the interior solution is returned only for positive '
                       'eigenvalues', f'{w}: result {kind}',
                       entails(q, posdef, True),
                       f'returned when {showb(q, 5)[:500]}')
            elif not zero and not entails(q, FALSE):
                roots = list(root_terms(s))
                lams = [x for x in roots if x.args[0] in (
                    'scipy.optimize.newton', 'scipy.optimize.brentq')]
                if lams:
                    ctx.ob('a step computed for a root solves the shifted '
                           'system', f'{w}: result {kind}',
                           any(equal(s, f, q) for lam in lams
                               for f in solutions(r, lam)),
                           f'{show(s, 7)[:600]} is not (B + lambda I)^-1 '
                           '(-g)')
            pd = q & posdef
            fits = FALSE
            if interior:
                nn = norm_(interior[0])
                fits = le(nn, delta)
            if sat(pd & fits, True) and not zero:
                ctx.ob('a short interior solution is returned as it is',
                       f'{w}: result {kind}', isint or never(
                           pd & fits & lt(ZERO, delta)),
                       f'{show(s, 5)[:300]} is returned when '
                       f'{showb(pd & fits, 5)[:400]}')
            if sat(q & eqn(delta, ZERO)):
                ctx.ob('a zero radius gives a zero step',
                       f'{w}: result {kind}',
                       never(q & eqn(delta, ZERO)) or s.op == 'zeros' or
                       zero_for(s, delta), show(s, 5)[:300])
    ctx.count('results of the n-dimensional solver', n)
    ctx.need('results of the n-dimensional solver', n, 3)


def zero_for(s, delta):
    """s is zero if delta is."""
    q = div(s, delta)
    return any(b is delta for m, c in lin_items(s)
               for b, k in mono_items(m) if k > 0) and not any(
        b is delta for m, c in lin_items(q) for b, k in mono_items(m)
        if k < 0)


def asfloat(b):
    """Products of float arrays are floats."""
    for v in support(b):
        a = _atoms[v]
        if a.op == 'isinst' and 'float' in str(a.args[1:]):
            b = restrict(b, v, True)
    return b


def one(ctx):
    hooks = {}

    class E:
        hooks = {}
    H.solver_hooks(E)
    k = H.SP + BND
    r = H.solver_run(D1, ctx.repo, hooks={k: E.hooks[k]})
    w = loc(r.eng, 'fides.subproblem:' + D1)
    delta = r.args['delta']
    a = {k: r.eng.content(v, r.st) for k, v in r.args.items()
         if k != 'logger'}
    st = r.st.fork()
    st.pc = TRUE

    def sp(src):
        env = {k: box(r.eng, st, v) for k, v in a.items()}
        return spec(r.eng, st, src, **env)

    low = '''m = -(s.dot(b.dot(s0)) + s.dot(g)) / s.dot(b).dot(s)
'''
    minq = sp(low + 'return m')
    fit = tob(sp(low + 'return s.dot(b).dot(s) > 0 and '
                 'norm(m * s + s0) <= delta'))
    trivial = eqn(delta, ZERO) | ~any_(~eqn(a['s'], ZERO))
    want = H.res_bnd(r.eng, st, a, None)
    ctx.need('calls of the boundary solver',
             len([e for e in r.events if e.kind == 'solve_bnd']), 1)
    n = 0
    for g, v in retcases(r):
        v = r.eng.content(v, r.st)
        for h, s in pairs(v):
            q = asfloat(g & h)
            if not sat(q, True):
                continue
            n += 1
            s = scalar_of(s)
            s = nofloat(s)
            if sat(q & eqn(delta, ZERO), True):
                ctx.ob('a zero radius gives a zero step', w,
                       s.op == 'zeros' or s is ZERO or zero_for(s, delta),
                       show(s, 5)[:300])
            q1 = q & ~trivial
            if never(q1):
                continue
            q2 = q1 & fit
            if not never(q2):
                ctx.ob('the minimizer along the line is returned if it '
                       'exists and fits', w, equal(s, minq, q2),
                       equal_cex(s, minq, q2))
            q2 = q1 & ~fit
            if not never(q2):
                ctx.ob('otherwise the result is the boundary solution', w,
                       equal(s, want, q2), equal_cex(s, want, q2))
    ctx.count('results of the 1-dimensional solver', n)
    ctx.need('results of the 1-dimensional solver', n, 3)


def scalar_of(t):
    """x of x * ones(1) and of array([x])."""
    t = subst(t, lambda x: x.args[1] if x.op == 'call' and x.args[0] ==
              'array' and len(x.args) == 2 and rank(x.args[1]) == 0 else None)
    its = lin_items(t)
    out = {}
    for m, c in its:
        fs = mono_items(m)
        m = ONE
        for b, k in fs:
            if b.op != 'ones':
                m = mul(m, powr(b, k))
        out[m] = out.get(m, 0) + c
    return from_lin(out)


def nofloat(t):
    """Entry (0, 0) of a number stands for a matrix product of sparse
    shapes; it is the number."""

    def f(x):
        if x.op == 'getitem' and rank(x.args[0]) == 0:
            return subst(x.args[0], f)
        return None

    return subst(t, f)


def boundary(ctx):
    r = solver(ctx, BND)
    w = loc(r.eng, 'fides.subproblem:' + BND)
    a = {k: r.eng.content(v, r.st) for k, v in r.args.items()
         if k != 'logger'}
    st = r.st.fork()
    st.pc = TRUE

    def sp(src, **kw):
        env = {k: box(r.eng, st, v) for k, v in {**a, **kw}.items()}
        return spec(r.eng, st, src, **env)

    v = r.eng.content(r.ret, r.st)
    S2, S0, DD = sp('return s.dot(s)'), sp('return s0.dot(s)'), a['delta']
    N0_ = sp('return s0.dot(s0)')
    n = 0
    for g, t in pairs(v):
        if not sat(g):
            continue
        vals = None
        if t.op == 'pick':
            key, items = t.args
            if key.op not in ('argmin', 'argmax') or items.op != 'segs':
                raise AnalysisError('unknown choice of the boundary point')
            ts = [x for _, x in items.args[0]]
            qs = key.args[0]
            vals = list(qs.args[0]) if qs.op == 'tuple' else None
            if vals is not None and key.op == 'argmax':
                vals = [neg(x) for x in vals]
            if vals is None or len(vals) != len(ts):
                raise AnalysisError('unknown choice of the boundary point')
        else:
            ts = [t]
        for x in ts:
            n += 1
            ctx.ob('the result lies on the sphere', w,
                   all(root_of(x, S2, S0, N0_, DD, sg) is not None
                       for sg in SIGNS),
                   f'{show(x, 6)[:300]} does not solve ||s0 + t s|| = delta')
        if vals is not None:
            ctx.ob('both points on the sphere are compared', w,
                   len(ts) == 2 and all(
                       len({root_of(x, S2, S0, N0_, DD, sg) for x in ts}) == 2
                       for sg in SIGNS), show(t, 6)[:400])
            ref = [sp('p = s0 + t * s\nreturn 0.5 * p.dot(b).dot(p) + '
                      'g.dot(p)', t=x) for x in ts]
            d = [sub(x, y) for x, y in zip(vals, ref)]
            ctx.ob('the values compared are those of the model', w, all(
                x is d[0] or rational_equal(x, d[0]) for x in d),
                   f'{show(vals[0], 5)[:300]}; {show(ref[0], 5)[:300]}')
    if n and all(t.op != 'pick' for g, t in pairs(v)):
        alt(ctx, w, sp, v, S2, S0, N0_, DD)
    ctx.need('points on the sphere', n, 2)


def alt(ctx, w, sp, v, S2, S0, N0_, DD):
    """The choice is made by comparing the values directly."""
    ts = list(dict.fromkeys(t for _, t in pairs(v)))
    val = {x: sp('p = s0 + t * s\nreturn 0.5 * p.dot(b).dot(p) + g.dot(p)',
                 t=x) for x in ts}
    for g, t in pairs(v):
        for sg in SIGNS:
            h = g & {1: lt(ZERO, S0), -1: lt(S0, ZERO),
                     0: eqn(S0, ZERO)}[sg[0]]
            if not sat(h, True):
                continue
            k = root_of(t, S2, S0, N0_, DD, sg)
            ok = k is not None and any(
                entails(h, c) or never(h & ~c) for x in ts
                if root_of(x, S2, S0, N0_, DD, sg) == -k
                for c in [le(val[t], val[x])])
            ctx.ob('the values compared are those of the model', w, ok,
                   showb(g, 6)[:500])


SIGNS = [(1, 1), (-1, -1), (0, 1), (0, -1)]


def root_of(x, S2, S0, N0_, delta, signs):
    """+1/-1 for the larger/smaller root of S2 t^2 + 2 S0 t + N0 - delta^2,
    for an S0 of the first given sign whose sign bit is the second; None if
    x is neither."""
    sign, bit = signs
    A = sym('A°', rank=0, notnone=True)
    b = sym('b°', rank=0, notnone=True) if sign else ZERO
    q = sym('q°', rank=0, notnone=True)
    n0 = sym('n0°', rank=0, notnone=True)
    # delta^2 = n0^2 - (b^2 - q^2) / A
    dl = powr(sub(powr(n0, 2), div(sub(powr(b, 2), powr(q, 2)), A)),
              Fraction(1, 2))
    x = simplify(x, {1: lt(ZERO, S0), -1: lt(S0, ZERO),
                     0: eqn(S0, ZERO)}[sign])

    def put(t):
        if t.op == 'norm' and powr(t, 2) is S2:
            return powr(A, Fraction(1, 2))
        if t is S0:
            return b
        if t.op == 'norm' and powr(t, 2) is N0_:
            return n0
        if t is delta:
            return dl
        if t.op == 'call' and t.args[0] == 'copysign':
            return mul(num(bit), subst(t.args[1], put))
        if t.op == 'sign':
            return num(sign)
        return None

    y = subst(subst(x, put), lambda t: q if t.op == 'abs' and
              t.args[0] is q else None)
    for k in (1, -1):
        want = div(add(neg(b), mul(num(k), q)), A)
        if y is want or rational_equal(y, want):
            return k
    return None


# ------------------------------------------------- use in step computation
def uses(ctx):
    nev = 0
    for cls in candidate_classes(ctx):
        r = step(ctx, cls)
        w = cloc(r, cls, 'calculate')
        evs = [e for e in r.events if e.kind in (
            'solve_nd', 'solve_1d', 'solve_bnd')]
        og = fld(r, r.st, 'og_ss')
        ss0 = fld(r, r.st, 'ss0')
        total = add(og, ss0)
        Bm, G = fld(r, r.st, 'shess'), fld(r, r.st, 'sg')
        D = sym('delta', rank=0, notnone=True)
        for ev in evs:
            nev += 1
            c = ev.data['contents']
            we = f'{where(r.eng, ev)} ({short(cls)})'
            t = ev.data.get('result')
            if t is None:
                raise AnalysisError('solver without result')
            st = r.st.fork()
            st.pc = TRUE
            leaves = [(g, x) for g, x in pairs(total)
                      if contains(x, lambda z: z is t) and sat(g)]
            if not leaves:
                continue
            if ev.kind == 'solve_nd':
                for g, x in leaves:
                    V = factor(x, ss0, t)
                    ctx.ob('the solution of the subspace problem is the '
                           'step', we, V is not None,
                           f'{show(x, 6)[:300]}')
                    if V is None:
                        continue
                    env = dict(V=box(r.eng, st, V), B=box(r.eng, st, Bm),
                               G=box(r.eng, st, G), D=D,
                               s0=box(r.eng, st, ss0))
                    obeq(ctx, 'matrix of the subspace problem', we, c['b'],
                         spec(r.eng, st, 'return V.T.dot(B).dot(V)', **env),
                         g)
                    obeq(ctx, 'gradient of the subspace problem', we,
                         c['g'], spec(r.eng, st, 'return V.T.dot(G)', **env),
                         g)
                    obeq(ctx, 'radius of the subspace problem', we,
                         c['delta'], spec(
                             r.eng, st, 'return np.sqrt(max(D**2 - '
                             'norm(s0)**2, 0.0))', **env), g)
                continue
            for g, x in leaves:
                obeq(ctx, 'matrix of the line problem', we, c['b'], Bm, g)
                obeq(ctx, 'gradient of the line problem', we, c['g'], G, g)
                obeq(ctx, 'radius of the line problem', we, c['delta'], D,
                     g)
                tt = t
                env = dict(t=box(r.eng, st, tt), s=box(r.eng, st, c['s']),
                           s0=box(r.eng, st, c['s0']))
                want = spec(r.eng, st, 'return s0 + t * s' if rank(t) == 0
                            else 'return s0 + t[0] * s', **env)
                ctx.count('terms compared')
                ctx.ob('the point on the line is the step', we,
                       online(x, want, t, g), equal_cex(x, want, g))
    ctx.count('calls of subproblem solvers', nev)
    ctx.need('calls of subproblem solvers', nev, 3)
    cg(ctx)


def online(x, want, t, g):
    """x and want agree, where columns times one-element vectors are
    written as multiples."""
    a, b = flat(x, t), flat(want, t)
    return equal(a, b, g)


def flat(x, t):
    """Products of a one-column matrix with the one-element vector t or
    ones(1) are multiples of the column."""
    k = mk('getitem', t, ZERO) if rank(t) == 1 else None

    def f(z):
        fs = factors(z)
        if fs is not None and len(fs) == 2:
            c = column(fs[0])
            if c is not None and fs[1].op == 'ones':
                return c
            if c is not None and fs[1] is t:
                return mul(k, c)
            y = fs[1]
            if c is not None and y.op == 'call' and y.args[0] == 'array' \
                    and len(y.args) == 2 and rank(y.args[1]) == 0:
                return mul(y.args[1], c)
        return None

    return subst(x, f)


def factors(z):
    if z.op == 'chain':
        return list(z.args[1])
    if z.op == 'call' and z.args[0] == 'dot':
        return list(z.args[1:])
    return None


def column(m):
    if m.op == 'col':
        return m.args[0]
    if rank(m) == 2:
        return mk('getitem', m, mk('tuple', (mk('slice', NONE, NONE, NONE),
                                             ZERO)))
    return None


def factor(x, ss0, t):
    """V such that x = V @ t + ss0."""
    fs = factors(sub(x, ss0))
    if fs is not None and len(fs) == 2 and fs[1] is t:
        return fs[0]
    return None


def cg(ctx):
    """Iterates of conjugate gradients that are returned without the
    boundary solver lie within the radius."""
    n = 0
    for cls in candidate_classes(ctx):
        r = step(ctx, cls)
        if not any(e.kind == 'solve_bnd' for e in r.events):
            continue
        D = sym('delta', rank=0, notnone=True)
        og = fld(r, r.st, 'og_ss')
        ts = [e.data.get('result') for e in r.events
              if e.kind.startswith('solve_')]
        for g, x in pairs(add(og, fld(r, r.st, 'ss0'))):
            if not sat(g) or any(contains(x, lambda z: z is t)
                                 for t in ts):
                continue
            if x.op == 'zeros' or contains(x, lambda z: z is NONE):
                continue
            n += 1
            ctx.ob('conjugate gradient steps are within the radius',
                   cloc(r, cls, 'calculate'), bounded(x, g, D),
                   f'{show(x, 5)[:300]} when {showb(g, 5)[:500]}')
    ctx.count('steps without subproblem solver', n)
    return n


# ---------------------------------------------------------------- C11
INFINITE = ('count', 'itertools.count', 'itertools.cycle', 'itertools.repeat', 'iter')
SIZES = ('len', 'shape', 'ndim', 'size')


def size_term(t):
    """A number given by constants and sizes of arrays only."""
    def bad(x):
        if x.op in SIZES or x.op == 'call' and x.args[0] in SIZES:
            return False
        if x.op in ('num', 'lin', 'prod', 'min', 'max', 'cases', 'tuple'):
            return None
        if x.op == 'getitem' and size_term(x.args[0]):
            return False
        if x.op == 'mu' and x.args[2] == 'index' if x.op == 'mu' and len(
                x.args) > 2 else False:
            return False
        if x.op == 'call' and x.args[0] in ('int', 'round', 'floordiv',
                                            'numpy.intp'):
            return None
        return True

    def go(x):
        b = bad(x)
        if b is not None:
            return not b
        if x.op in ('lin', 'prod'):
            return all(go(m) for m, _ in x.args[0])
        if x.op == 'cases':
            return all(go(l) for _, l in x.args[0])
        if x.op == 'num':
            return True
        ys = []
        for a in x.args:
            ys += a if isinstance(a, tuple) else [a]
        return all(go(a) for a in ys if isinstance(a, T))

    return go(t)


def finite(e, it, st, L):
    """None if the iterable is finite with a length that is constant or a
    size, else a complaint."""
    if it is None:
        return None
    if it.op == 'cases':
        for _, l in it.args[0]:
            m = finite(e, l, st, L)
            if m:
                return m
        return None
    o = e.obj(it, st)
    if o is not None and o.kind in ('list', 'dict', 'set'):
        if any(p[0][0] == it.args[0] and p[0][1] in ('items', '?', 'v')
               for p in L.varying):
            return 'the collection changes while it is iterated over'
        return None
    c = e.content(it, st)
    if c.op == 'call' and isinstance(c.args[0], str):
        n = c.args[0]
        if n == 'range':
            if all(size_term(x) for x in c.args[1:]):
                return None
            return f'the number of passes depends on {show(c, 5)[:200]}'
        if n in INFINITE:
            return f'{n} has no end'
        if n in ('zip', 'zip_longest'):
            ms = [finite(e, x, st, L) for x in c.args[1:]]
            if n == 'zip' and any(m is None for m in ms):
                return None
            return next((m for m in ms if m), None)
        if n in ('enumerate', 'reversed', 'sorted', 'list', 'tuple', 'map',
                 'filter', 'set', 'iter'):
            xs = [x for x in c.args[1:] if isinstance(x, T) and x.op not in (
                'func', 'b', 'kw', 'num')]
            return next((m for m in (finite(e, x, st, L) for x in xs) if m),
                        None)
    return None


def integer(t):
    return all(isinstance(c, int) or c.denominator == 1
               for _, c in lin_items(t)) if t.op in ('lin', 'num') else True


def ranked(e, L):
    """Some integer counter moves by constant steps towards a bound that
    holds whenever the loop goes on."""
    if L.ends is None:
        return True
    pc = L.ends.pc
    lits = FALSE
    for p in L.varying:
        if len(p) != 1:
            continue
        oid, k = p[0]
        m = L.head.get(oid, k)
        v1 = L.endvals.get(p)
        v0 = L.entry.get(oid, k)
        if k == 'items' and m is not None and v1 is not None:
            lits = lits | longer(m, v1[0], pc)
            continue
        if m is None or v1 is None or v0 is None or not isinstance(
                m, T) or m.op != 'mu':
            continue
        v1 = v1[0]
        v0s = [l for _, l in pairs(v0)]
        if not all(size_term(l) and integer(l) for l in v0s):
            continue
        ks = set()
        for g, l in pairs(v1):
            if sat(g & pc):
                ks.add(numval(sub(l, m)))
        if not ks or None in ks or any(x.denominator != 1 for x in ks) or \
                not (all(x > 0 for x in ks) or all(x < 0 for x in ks)):
            continue
        up = all(x > 0 for x in ks)
        for v in support(pc):
            a = _atoms[v]
            if a.op not in ('lt0', 'le0', 'eq0'):
                continue
            its = dict(lin_items(a.args[0]))
            c = its.pop(m, None)
            rest = from_lin(its)
            if c is None or not size_term(rest):
                continue
            if a.op == 'eq0':
                # counts down to zero by ones
                if ks in ({Fraction(1)}, {Fraction(-1)}) and all(
                        steps_to(l, scale(rest, -1 / c), up) for l in v0s):
                    lits = lits | ~atom(a)
                continue
            lits = lits | (atom(a) if (c > 0) == up else ~atom(a))
    return entails(pc, lits) if lits is not FALSE else False


def longer(head, end, pc):
    """Bounds on the length of a list that grows in every pass."""
    out = FALSE
    if head.op != 'segs' or end.op != 'segs':
        return out
    n = len(head.args[0])
    if end.args[0][:n] != head.args[0] or not any(
            entails(pc, g) and x.op not in ('splat', 'splatvar', 'mulist')
            for g, x in end.args[0][n:]):
        return out
    for v in support(pc):
        a = _atoms[v]
        if a.op not in ('lt0', 'le0'):
            continue
        its = dict(lin_items(a.args[0]))
        ls = [m for m in its if m.op == 'len' and m.args[0] is head]
        if len(ls) != 1:
            continue
        c = its.pop(ls[0])
        if size_term(from_lin(its)):
            out = out | (atom(a) if c > 0 else ~atom(a))
    return out


def steps_to(v0, target, up):
    d = sub(target, v0) if up else sub(v0, target)
    its = lin_items(d)
    # arrays have at least one element
    return all(m is ONE or m.op == 'len' and c > 0 for m, c in its) and sum(
        c for _, c in its) >= 0


def c11(ctx):
    n = 0
    runs = list(parts(ctx)) + [
        (f'{MIN} ({label(x)})', run(x, repo=ctx.repo)) for x in ALL]
    for name, r in runs:
        e = r.eng
        main = getattr(r, 'main', None)
        for L in r.loops:
            if L is main:
                continue
            n += 1
            w = f'{loc_loop(e, L)} ({name})'
            if L.ends is None:
                ctx.ob('loops make a bounded number of passes', w, True)
                continue
            m = None
            if L.kind == 'for' or L.iterable is not None:
                m = finite(e, L.iterable, L.entry, L)
                if m and ranked(e, L):
                    m = None
            elif not ranked(e, L):
                m = ('no integer counter with a bound by constants or sizes '
                     f'limits it; it goes on when {showb(L.ends.pc, 5)[:400]}')
            ctx.ob('loops make a bounded number of passes', w, m is None, m)
        for ev in r.events + getattr(r, 'init_events', []):
            if ev.kind == 'itergrown':
                ctx.ob('loops make a bounded number of passes',
                       f'{where(e, ev)} ({name})', False,
                       'the list changes while it is iterated over')
            if ev.kind == 'recursion':
                ctx.ob('no recursion', f'{where(e, ev)} ({name})', False,
                       f'{ev.data.get("func")} calls itself')
        ctx.count('functions analysed', len(e.visited))
    ctx.count('loops', n)
    ctx.need('loops', n, 6)


def loc_loop(e, L):
    m = L.func.split(':')[0]
    return f'{m.replace(".", "/")}.py:{getattr(L.node, "lineno", "?")} in ' \
           f'{L.func.split(":")[-1]}'
