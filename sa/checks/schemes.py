"""Properties of the Hessian update schemes (C17-C21)."""

from fractions import Fraction

from .base import *  # noqa: F401,F403
from .base import never, equal, equal_cex, pairs, spec, box, loc
from ..interp import AnalysisError, ABSENT, NONE, ref
from ..terms import mk
from .. import harness as H

HESS = 'fides/hessian_approximation.py'
STRUCTURED = ['SSM', 'TSSM', 'GNSBFGS']
HYBRID = ['HybridFixed', 'HybridFraction', 'FX']
SYMMETRIC = ['BFGS', 'DFP', 'Broyden', 'SR1']
_cache = {}

_STEP = {
    # documented member of the Broyden class
    'broyden': '''
u = B.dot(s)
v = y / y.dot(s) - u / s.dot(u)
return (B - np.outer(u, u) / s.dot(u) + np.outer(y, y) / y.dot(s)
        + phi * s.dot(u) * np.outer(v, v))
''',
    'SR1': '''
z = y - B.dot(s)
return B + np.outer(z, z) / z.dot(s)
''',
    'BG': '''
z = y - B.dot(s)
return B + np.outer(z, s) / s.dot(s)
''',
    'BB': '''
z = y - B.dot(s)
v = B.T.dot(y)
return B + np.outer(z, v) / v.dot(s)
''',
}


def srun(ctx, cls, inner='BFGS', symmetric=None, hess0=True):
    if symmetric is None:
        symmetric = cls not in ('BG', 'BB')
    k = (ctx.repo, cls, inner, symmetric, hess0)
    if k not in _cache:
        _cache[k] = H.scheme_run(cls, inner, ctx.repo, symmetric,
                                 hess0=hess0)
    return _cache[k]


def place(r, meth='update'):
    f = r.eng.lookup_class(H.HA + '.' + r.name, meth)
    if f is not None and f.op == 'func':
        n = r.eng.funcs[f.args[0]].node
        return f'{HESS}:{n.lineno} {r.name}.{meth}'
    return f'{HESS} {r.name}'


def mats(r):
    return r.mat0, H.getter(r, 'get_mat', r.st)


def rspec(run_, text, **kw):
    st = run_.st0.fork()
    return spec(run_.eng, st, text, **{k: box(run_.eng, st, t)
                                       for k, t in kw.items()})


S, Y, YB, R = 's', 'y', 'yb', 'r'


def args(r):
    out = {}
    for n, v in r.args.items():
        k = H.SCHEME_ARGS[n][0]
        out[k] = r.eng.content(v, r.st0) if v.op != 'ref' else \
            r.st.heap[v.args[0]].f['c']
        if v.op == 'ref':
            out[k] = sym(k)
    return out


def enforce():
    return atom(mk('truth', sym('enforce', rank=0)))


def phi_of(name):
    return {'BFGS': ZERO, 'DFP': ONE, 'GNSBFGS': ZERO}.get(
        name, sym('p_phi'))


def inner_mats(r):
    """Matrix of the iterative scheme inside of a hybrid one, before and
    after the update."""
    for oid in inner_oids(r):
        def get(st):
            s = st.fork()
            r.eng.dry += 1
            v = r.eng.call_method(ref(oid), 'get_mat', [], {}, s, H.N0)
            r.eng.dry -= 1
            return r.eng.content(v, s)
        return get(r.st0), get(r.st)
    raise AnalysisError(f'{r.name} holds no iterative scheme')


def inner_oids(r):
    return [v.args[0] for v in r.st0.heap[r.oid].f.values()
            if isinstance(v, T) and v.op == 'ref' and
            r.st0.heap[v.args[0]].kind == 'inst']


def configurations(structured=True, hybrid=True):
    """(class, inner scheme)"""
    for c in H.ITERATIVE:
        yield c, 'BFGS'
    if structured:
        for c in STRUCTURED:
            yield c, 'BFGS'
    if hybrid:
        for c in HYBRID:
            for i in H.ITERATIVE:
                yield c, i


def iterated(r):
    """(matrix that is updated iteratively, before and after; the B, s, y
    of the secant update)"""
    a = args(r)
    n = r.name
    if n in HYBRID:
        m0, m1 = inner_mats(r)
        return m0, m1
    if n in STRUCTURED:
        return structured_part(r)
    return mats(r)


def structured_part(r):
    f0, f1 = r.st0.heap[r.oid].f, r.st.heap[r.oid].f
    if 'A' not in f0:
        raise AnalysisError(f'{r.name} has no structured part A')
    return r.eng.content(f0['A'], r.st0), r.eng.content(f1['A'], r.st)


def combined(ctx, r, a, w, name, m1, A1):
    """The matrix after every update, also a skipped one, is combined from
    the supplied one and the structured part."""
    pc = r.st.pc
    cases = [(TRUE, {'SSM': 'C + A', 'TSSM': 'C + norm(r) * A',
                     'GNSBFGS': 'C + A'}[name], 'the structured part')]
    if name == 'GNSBFGS':
        on = lt(sym('p_hybrid_tol'), rspec(
            r, 'return yb.dot(s) / s.dot(s)', yb=a['yb'], s=a['s']))
        cases = [(on, *cases[0][1:]),
                 (~on, 'C + norm(r) * np.eye(len(s))',
                  'the identity times the norm of the residuals')]
    for c, src, what in cases:
        for g, l in pairs(m1):
            for h, x in pairs(A1):
                q = g & h & c & pc
                if never(q):
                    continue
                f = rspec(r, f'return {src}', C=a['C'], A=x, r=a['r'],
                          s=a['s'])
                ctx.count('combinations')
                ctx.ob(f'the matrix is the supplied one combined with {what}',
                       w, equal(l, f, q) or rational_equal(l, f),
                       equal_cex(l, f, q))


# --------------------------------------------------------------------- C17
def c17(ctx):
    for name, inner in configurations(hybrid=False):
        r = srun(ctx, name)
        a = args(r)
        w = place(r)
        ctx.count('update functions')
        m0, m1 = mats(r)
        if name in STRUCTURED:
            A0, A1 = structured_part(r)
            upd = FALSE
            for g, l in pairs(A1):
                if l is not A0:
                    upd = upd | g
            want = rspec(r, 'return C.dot(s) + yb', C=a['C'], s=a['s'],
                         yb=a['yb'])
            what = 'C s + yb'
        else:
            upd = FALSE
            for g, l in pairs(m1):
                if l is not m0:
                    upd = upd | g
            want, what = a['y'], 'y'
        ctx.ob('updates are made', w, sat(upd & r.st.pc),
               'no input changes the matrix')
        for g, l in pairs(m1):
            if not sat(g & upd & r.st.pc):
                continue
            ctx.count('update formulas')
            bs = rspec(r, 'return B.dot(s)', B=l, s=a['s'])
            pc = g & upd & r.st.pc
            ok = equal(bs, want, pc) or rational_equal(bs, want)
            ctx.ob(f'the updated matrix times s is {what}', w, ok,
                   f'under {showb(constrain(g, r.st.pc), 4)[:500]}\n'
                   f'B_new s = {show(rational_form(bs), 6)[:900]}')
        if name in STRUCTURED:
            combined(ctx, r, a, w, name, m1, A1)
        # member of the class
        if name in ('BFGS', 'DFP', 'Broyden'):
            f = rspec(r, _STEP['broyden'], B=m0, s=a['s'], y=a['y'],
                      phi=phi_of(name))
            for g, l in pairs(m1):
                pc = g & upd & r.st.pc
                if not sat(pc):
                    continue
                f1 = f
                if name == 'Broyden' and not sat(pc & ~tob(
                        bt(eqn(sym('p_phi'), ZERO)))):
                    f1 = rspec(r, _STEP['broyden'], B=m0, s=a['s'],
                               y=a['y'], phi=ZERO)
                ctx.count('update formulas')
                ctx.ob(f'{name} is the member of the Broyden class it is '
                       'documented to be', w, equal(l, f1, pc) or
                       rational_equal(l, f1), equal_cex(l, f1, pc))
        elif name in _STEP:
            f = rspec(r, _STEP[name], B=m0, s=a['s'], y=a['y'])
            for g, l in pairs(m1):
                pc = g & upd & r.st.pc
                if not sat(pc):
                    continue
                ctx.count('update formulas')
                ctx.ob(f'{name} updates by its documented formula', w,
                       equal(l, f, pc) or rational_equal(l, f),
                       equal_cex(l, f, pc))
    # hybrid schemes hand step and gradient difference on
    for name in HYBRID:
        for inner in H.ITERATIVE:
            r = srun(ctx, name, inner)
            r0 = srun(ctx, inner, 'BFGS', r.name not in ('BG', 'BB'))
            m0, m1 = inner_mats(r)
            b0, b1 = mats(r0)
            a, a0 = args(r), args(r0)
            ctx.count('update functions')
            # same formula with the names of this scheme
            want = subst(b1, lambda t: m0 if t is b0 else a['s'] if t is
                         a0['s'] else a['y'] if t is a0['y'] else None)
            for g, l in pairs(m1):
                if not sat(g & r.st.pc):
                    continue
                if l is m0 or l is a.get('C'):
                    continue
                ctx.count('update formulas')
                ctx.ob('the iterative scheme inside is updated with step and '
                       'gradient difference', f'{place(r)} with {inner}',
                       equal(l, want, g & r.st.pc),
                       equal_cex(l, want, g & r.st.pc))


# --------------------------------------------------------------------- C18
def c18(ctx):
    for name, inner in configurations():
        if name in ('BG', 'BB') or name in HYBRID and inner not in SYMMETRIC:
            continue
        r = srun(ctx, name, inner, True)
        w = place(r) + (f' with {inner}' if name in HYBRID else '')
        ctx.count('schemes')
        for what, st in (('initialization', r.st_init), ('update', r.st)):
            ts = [('get_mat()', H.getter(r, 'get_mat', st))]
            for oid in [r.oid] + inner_oids(r):
                for k, v in sorted(st.heap[oid].f.items(), key=str):
                    if not isinstance(v, T):
                        continue
                    c = r.eng.content(v, st)
                    if rank(c) == 2 and r.stale.get((oid, k)) is not None:
                        ts.append((str(k), c))
            for k, t in ts:
                ctx.count('matrices')
                tt = mkcases([(g, transpose(l)) for g, l in pairs(t)])
                ctx.ob(f'symmetric after {what}', f'{w} {k}',
                       equal(tt, t, st.pc), equal_cex(tt, t, st.pc))
        r = srun(ctx, name, inner, True, hess0=False)
        t = r.init_mat
        ctx.ob('symmetric without initial matrix', f'{w} get_mat()',
               all(transpose(l) is l for _, l in pairs(t)), show(t))
    from .base import run, Iter, where
    for name in sorted(H.RESFUN):
        ro = run(name, repo=ctx.repo)
        it = Iter(ro)
        H0 = [it.ev_model(ev)[2] for ev in it.init_evals]
        n = 0
        for ev in ro.events:
            if ev.kind not in ('scheme.update', 'scheme._init_mat') or \
                    ev.data['recv'] is not ro.scheme:
                continue
            hs = ev.data['contents'].get('hess')
            if hs is None:
                continue
            for g, l in pairs(hs):
                if l is NONE or contains(l, lambda t: t.op == 'sym' and
                                         t.args[0] == 'hess0'):
                    continue
                n += 1
                ctx.count('residual Hessians')
                ctx.ob('the Hessian of a residual objective is symmetric',
                       f'{where(it.eng, ev)} ({name})', transpose(l) is l or
                       equal(transpose(l), l, g), show(l, 5))
        ctx.need('Hessians handed to ' + name, n)


# --------------------------------------------------------------------- C19
def c19(ctx):
    for name, inner in configurations():
        if name in HYBRID:
            continue
        r = srun(ctx, name, inner)
        a = args(r)
        w = place(r)
        ctx.count('update functions')
        m0, m1 = iterated(r)
        s = a['s']
        same = FALSE
        for g, l in pairs(m1):
            if l is m0:
                same = same | g
        if name in ('BFGS', 'DFP', 'Broyden', 'SSM', 'TSSM', 'GNSBFGS'):
            y = {'SSM': 'C.dot(s) + yb', 'TSSM': 'C.dot(s) + yb',
                 'GNSBFGS': 'yb'}.get(name, 'y')
            kw = {k: a[k] for k in ('y', 'yb', 'C') if k in a}
            b = rspec(r, f'return ({y}).dot(s)', s=s, **kw)
            bad = enforce() & le(b, ZERO)
            ctx.count('skip conditions')
            ctx.ob("with curvature enforcement nothing is updated if y's is "
                   'not positive', w, never(bad & ~same & r.st.pc),
                   f'updated if {showb(bad & ~same & r.st.pc, 5)[:900]}')
            # without enforcement only the denominator counts
            free = ~enforce() & ~tob(bt(eqn(b, ZERO)))
            if name == 'GNSBFGS':
                free = free & lt(sym('p_hybrid_tol'), rspec(
                    r, 'return yb.dot(s) / s.dot(s)', yb=a['yb'], s=s))
            ctx.ob('without enforcement updates are not skipped for the '
                   'curvature', w, never(free & same & r.st.pc),
                   f'skipped if {showb(free & same & r.st.pc, 5)[:900]}')
        elif name == 'BB':
            b = rspec(r, 'return B.T.dot(y).dot(s)', B=m0, s=s, y=a['y'])
            ctx.count('skip conditions')
            ctx.ob('BB: skipped if the denominator is not positive', w,
                   never(le(b, ZERO) & ~same & r.st.pc),
                   f'not skipped if '
                   f'{showb(le(b, ZERO) & ~same & r.st.pc, 5)[:900]}')
        elif name == 'SR1':
            ks = sorted({abs(k) for k in coefficients(m1)} | {
                Fraction(1, 2 ** 26)})
            ok = False
            for k in ks:
                if not 0.5e-8 <= k <= 4e-8:
                    continue
                bad = rspec(r, '''
z = y - B.dot(s)
return np.abs(z.dot(s)) < k * norm(s) * norm(z)
''', B=m0, s=s, y=a['y'], k=num(k))
                if never(tob(bad) & ~same & r.st.pc) and (
                        same is not TRUE):
                    ok = True
            ctx.count('skip conditions')
            ctx.ob('SR1: skipped if |(y-Bs)\'s| < 1e-8 |s| |y-Bs|', w, ok,
                   f'unchanged if {showb(same, 5)[:900]}')
    # the setting given to the constructor is the one used
    for name in ('BFGS', 'DFP', 'Broyden') + tuple(STRUCTURED):
        r = srun(ctx, name)
        m0, m1 = iterated(r)
        used = any(x.op == 'truth' and x.args[0] is sym('enforce')
                   for g, _ in pairs(m1) for x in batoms(g))
        ctx.ob('the enforcement setting given to the constructor is used',
               place(r), used, show(m1, 4)[:600])
        ctx.count('settings traced')


def coefficients(t):
    out = set()
    for x in subterms(t):
        if x.op == 'cases':
            for g, _ in x.args[0]:
                for a in batoms(g):
                    for y in subterms(a):
                        if y.op == 'lin':
                            out |= {k for _, k in lin_items(y)}
    return out


# --------------------------------------------------------------------- C20
def c20(ctx):
    for name, inner in configurations():
        r = srun(ctx, name, inner)
        w = place(r) + (f' with {inner}' if name in HYBRID else '')
        m0, m1 = mats(r)
        d = nomat(H.getter(r, 'get_diff', r.st))
        ctx.count('schemes')
        want = difference(m1, m0)
        ctx.ob('get_diff() is the change of get_mat()', w,
               equal(d, want, r.st.pc), equal_cex(d, want, r.st.pc))
        if name in STRUCTURED:
            A0, A1 = structured_part(r)
            sd = nomat(H.getter(r, 'get_structured_diff', r.st))
            want = difference(A1, A0)
            ctx.count('structured parts')
            ctx.ob('get_structured_diff() is the change of the structured '
                   'part', w, equal(sd, want, r.st.pc),
                   equal_cex(sd, want, r.st.pc))
        # get_mat() after an update that changed nothing else
        ctx.ob('updates leave the arguments alone', w, not [
            e for e in r.events if e.kind == 'arrwrite' and
            e.data.get('user')], '')


def nomat(t):
    """M - M for a matrix whose rank is not known is the zero matrix."""
    return mkcases([(g, mk('zeros', 2) if x is ZERO else x)
                    for g, x in pairs(t)])


def difference(a, b):
    out = []
    for g, x in pairs(a):
        for h, y in pairs(b):
            if (g & h) is not FALSE:
                out.append((g & h, sub(x, y) if x is not y
                            else mk('zeros', 2)))
    return mkcases(out)


# --------------------------------------------------------------------- C21
def c21(ctx):
    for inner in H.ITERATIVE:
        for name in ('HybridFixed', 'HybridFraction'):
            switch(ctx, name, inner)
        fx(ctx, inner)


def switched(r, m1, a, w, ctx):
    """Condition over the state under which the iterative matrix is used."""
    i0, i1 = inner_mats(r)
    use_it = use_c = FALSE
    for g, l in pairs(m1):
        if l is a['C']:
            use_c = use_c | g
        else:
            use_it = use_it | g
            ctx.ob('after the switch the matrix of the iterative scheme is '
                   'used', w, equal(l, i1, g & r.st.pc),
                   equal_cex(l, i1, g & r.st.pc))
    return use_it, use_c


def state_atoms(r):
    return {v.args[0]: k for k, v in r.stale.items() if v.op == 'b'}


def state_subst(r, g, st):
    """Condition g over the state before an update, for another state."""
    m = {}
    for (oid, k), v in r.stale.items():
        c = st.get(oid, k)
        if c is None:
            continue
        if v.op == 'b':
            for x in batoms(v.args[0]):
                m[x] = c
        elif v.op == 'sym':
            m[v] = r.eng.content(c, st)
    t = subst(bt(g), lambda x: None, atomf=lambda x, go: tob(m[x])
              if x in m else None)
    t = subst(t, lambda x: m[x] if x in m and x.op == 'sym' else None)
    return tob(t)


def switch(ctx, name, inner):
    r = srun(ctx, name, inner)
    a = args(r)
    w = f'{place(r)} with {inner}'
    ctx.count('schemes')
    m0, m1 = mats(r)
    use_it, use_c = switched(r, m1, a, w, ctx)
    pc = r.st.pc
    ctx.ob('before the switch the supplied matrix is used', w,
           sat(use_c & pc), show(m1, 3)[:500])
    ctx.ob('the switch can happen', w, sat(use_it & pc), show(m1, 3)[:500])
    # depends on nothing but the state
    bad = [x for x in batoms(use_it) if contains(x, lambda t: t.op == 'sym'
           and t.args[0] in ('s', 'y', 'C', 'r', 'since', 'nonupdates',
                             'iterations', 'enforce'))]
    ctx.ob('the matrix used is decided before the update', w, not bad,
           f'depends on {[show(x, 3) for x in bad]}')
    after = state_subst(r, use_it, r.st)
    if name == 'HybridFixed':
        cond = le(sym('p_switch_iteration'), a['since'])
    else:
        cond = lt(num(25), a['iterations']) & lt(
            sym('p_switch_threshold'),
            mul(a['nonupdates'], powr(a['iterations'], -1)))
    want = use_it | cond
    d = (after & ~want) | (~after & want)
    ctx.ob('switched afterwards if switched before or the documented '
           'condition holds', w, never(d & pc),
           f'computed {showb(after, 4)[:500]}\nrequired '
           f'{showb(want, 4)[:500]}')
    init = state_subst(r, use_it, r.st_init)
    ctx.ob('runs start unswitched', w, never(init),
           showb(init, 4)[:300])
    every_step(ctx, r, inner, TRUE, w)


def every_step(ctx, r, inner, cond, w):
    """The iterative scheme is updated with step and gradient difference."""
    r0 = srun(ctx, inner, 'BFGS', True)
    m0, m1 = inner_mats(r)
    b0, b1 = mats(r0)
    a, a0 = args(r), args(r0)
    want = subst(b1, lambda t: m0 if t is b0 else a['s'] if t is a0['s']
                 else a['y'] if t is a0['y'] else None)
    pc = cond & r.st.pc
    ctx.count('inner updates')
    ctx.ob('the iterative scheme is updated with every step', w,
           equal(m1, want, pc), equal_cex(m1, want, pc))


def fx(ctx, inner):
    r = srun(ctx, 'FX', inner)
    a = args(r)
    w = f'{place(r)} with {inner}'
    ctx.count('schemes')
    m0, m1 = mats(r)
    i0, i1 = inner_mats(r)
    pc = r.st.pc
    cond = le(sym('p_hybrid_tol'), rspec(
        r, 'return (rp.dot(rp) - r.dot(r)) / rp.dot(rp)', rp=a['rprev'],
        r=a['r']))
    ctx.ob('FX: a large enough decrease makes the supplied matrix current',
           w, equal(m1, a['C'], cond & pc), equal_cex(m1, a['C'], cond & pc))
    ctx.ob('FX: ... and restarts the iterative scheme from it', w,
           equal(i1, a['C'], cond & pc), equal_cex(i1, a['C'], cond & pc))
    ctx.ob('FX: otherwise the iterative matrix is used', w,
           equal(m1, i1, ~cond & pc), equal_cex(m1, i1, ~cond & pc))
    ctx.ob('FX: before an update the iterative matrix is used', w,
           equal(m0, i0, r.st0.pc), equal_cex(m0, i0, r.st0.pc))
    every_step(ctx, r, inner, ~cond, w)


# --------------------------------------------------------------------- C33
SHAPES = [(2, 2), (2, 3), (3, 2), (3, 3), (1, 1), (1, 4), (4, 1), (1, 9),
          (9, 1), (2, 1), (1, 2), (1, 3), (3, 1), (2,), (3,), (4,), (),
          (2, 2, 2), (2, 2, 1), (1, 2, 2)]


def c33(ctx):
    """Initial and assigned approximations."""
    for name, inner in configurations():
        w = place(srun(ctx, name, inner), '_init_mat')
        for given in (True, False):
            r = srun(ctx, name, inner, hess0=given)
            want = sym('H0') if given else mk('eye')
            what = 'with an initial matrix' if given else \
                'without an initial matrix'
            ctx.count('initialisations')
            ctx.ob(f'{what}: get_mat() is '
                   f'{"this matrix" if given else "the identity"}', w,
                   equal(r.init_mat, want, r.st_init.pc),
                   equal_cex(r.init_mat, want, r.st_init.pc))
            for ev in r.init_events:
                if ev.kind == 'eye':
                    ns = [x for x in ev.data['sizes'] if x is not NONE]
                    ctx.count('sizes')
                    ctx.ob('the identity has the size of the problem',
                           f'{w}: {where_(r, ev)}', all(
                               x is sym('n') or x.op in ('len', 'getitem')
                               for x in ns) and not ev.data['more'],
                           str([show(x, 3) for x in ev.data['sizes']]))
            if name in HYBRID:
                for oid in inner_oids(r):
                    t = mat_of(r, oid, r.st_init)
                    ctx.ob(f'{what}: so is that of the iterative scheme', w,
                           equal(t, want, r.st_init.pc),
                           equal_cex(t, want, r.st_init.pc))
            if name in STRUCTURED:
                A = r.eng.content(r.st_init.heap[r.oid].f['A'], r.st_init)
                k = div(A, mk('eye'))
                ctx.ob(f'{what}: the structured part is a positive multiple '
                       'of the identity', w, rank(k) == 0 and entails(
                           r.st_init.pc, lt(ZERO, k)), show(A, 4)[:300])
            if given:
                floats(ctx, r, r.st_init, what, w)
            ctx.ob(f'{what}: no change is reported yet', w,
                   all(l.op == 'zeros' or numval(l) == 0
                       for g, l in pairs(r.init_diff)
                       if sat(g & r.st_init.pc)), show(r.init_diff, 3))
        r = srun(ctx, name, inner)
        shapes(ctx, r, w, False)
        s = r.st0.fork()
        e = r.eng
        old, e.events = e.events, []
        m = H.matsym(e, s, 'M', True)
        e.call_method(r.scheme, 'set_mat', [m], {}, s, H.N0)
        e.events = old
        ws = place(r, 'set_mat')
        t = H.getter(r, 'get_mat', s)
        ctx.count('assignments')
        ctx.ob('set_mat() makes the given matrix the approximation', ws,
               not s.dead and equal(t, sym('M'), s.pc),
               equal_cex(t, sym('M'), s.pc))
        floats(ctx, r, s, 'after set_mat()', ws)
        shapes(ctx, r, ws, True)
    for name in [c for c, _ in configurations(hybrid=False)] + HYBRID:
        start_matrix(ctx, name)


def floats(ctx, r, st, what, w):
    """Updates work for matrices of integers, too: they do not write into
    arrays with the element type of the given matrix."""
    e, s = r.eng, st.fork()
    for v in r.args.values():
        if v.op == 'ref':
            s.heap[v.args[0]] = r.st.heap[v.args[0]]
    old, e.events = e.events, []
    e.call_method(r.scheme, 'update', [], dict(r.args), s, H.N0)
    evs, e.events = e.events, old
    ctx.count('first updates')
    bad = [ev for ev in evs if ev.kind == 'arrwrite' and ev.data.get('udt')
           and sat(ev.pc)]
    ctx.ob(f'{what}: updates are not stored in arrays with the element type '
           'of the given matrix', w, not bad,
           '; '.join(where_(r, ev) for ev in bad))


def where_(r, ev):
    from .base import where
    return where(r.eng, ev)


def mat_of(r, oid, st):
    s = st.fork()
    r.eng.dry += 1
    v = r.eng.call_method(ref(oid), 'get_mat', [], {}, s, H.N0)
    r.eng.dry -= 1
    return r.eng.content(v, s)


def shapes(ctx, r, w, assign):
    """Matrices of another shape are rejected with a ValueError."""
    e = r.eng
    for sh in SHAPES:
        for k in (2, 3):
            good = sh == (k, k)
            s = r.st_new.fork()
            pc = s.pc
            old, e.events = e.events, []
            try:
                if assign:
                    e.call_method(r.scheme, '_init_mat', [
                        num(k), shaped(s, (k, k))], {}, s, H.N0)
                    if s.dead:
                        continue
                    e.events, pc = [], s.pc
                    e.call_method(r.scheme, 'set_mat', [shaped(s, sh)], {},
                                  s, H.N0)
                else:
                    e.call_method(r.scheme, '_init_mat', [
                        num(k), shaped(s, sh)], {}, s, H.N0)
                evs = [ev for ev in e.events if ev.kind in (
                    'raise', 'implicit_raise') and not
                    ev.data.get('handled') and sat(ev.pc)]
            finally:
                e.events = old
            what = f'shape {sh} for {k} variables'
            ctx.count('shapes')
            if evs and not s.dead and s.pc is not pc:
                ctx.count('shapes not decided')
                continue
            if good:
                ctx.ob('a matrix of the right shape is accepted', w,
                       not s.dead and not evs, what + ''.join(
                           f', {ev.data["exc"]} if {showb(ev.pc, 4)[:200]}'
                           for ev in evs))
            else:
                ctx.ob('a matrix of another shape is rejected', w, s.dead,
                       f'{what} passes')
                for ev in evs:
                    ctx.ob('rejected with a ValueError',
                           f'{w}: {where_(r, ev)}',
                           ev.data['exc'] == 'ValueError',
                           f'{ev.data["exc"]}, {what}')


def shaped(st, sh):
    name = 'given.' + 'x'.join(map(str, sh))
    t = sym(name, rank=len(sh), notnone=True, shape=sh,
            symmetric=len(sh) == 2)
    oid = ('in', name)
    st.heap[oid] = H.Obj('arr', f={'c': t}, label=name, meta={'user': True})
    return ref(oid)


def start_matrix(ctx, name):
    """Hessian at the start of the first iteration of a run."""
    from .base import run, Iter, label, where
    r = run(name, repo=ctx.repo)
    it = Iter(r)
    ctx.count('runs')
    w = f'{MINI} ({label(name)})'
    h0 = sym('hess0')
    hf = it.ev_model(it.init_evals[0])[2]
    isstr = atom(mk('isinst', h0, 'str'))
    named = isstr & tob(spec(it.eng, it.L.entry.fork(),
                             "return h == 'hess'", h=h0))
    none = atom(mk('isnone', h0))
    ent = it.L.entry
    have = it.field(ent, 'hess')
    ctx.ob("hess0='hess' is told from matrices", w, sat(ent.pc & named) and
           sat(ent.pc & ~isstr & ~none) and sat(ent.pc & none & ~isstr),
           showb(ent.pc, 3)[:200])
    for what, g, want in (
            ("with hess0='hess' the Hessian is that of the objective",
             named, None if hf is NONE else hf),
            ('with a matrix as hess0 the Hessian is this matrix',
             ~isstr & ~none, h0),
            ('without hess0 the Hessian is the identity', ~isstr & none,
             mk('eye'))):
        if want is None:
            continue
        ctx.count('start values')
        ctx.ob(what, w, equal(have, want, ent.pc & g),
               equal_cex(have, want, ent.pc & g))
        s = ent.fork()
        e = it.eng
        e.dry += 1
        v = e.content(e.call_method(r.scheme, 'get_mat', [], {}, s, H.N0), s)
        e.dry -= 1
        ctx.ob(what + ', in the update scheme too', w,
               equal(v, want, ent.pc & g), equal_cex(v, want, ent.pc & g))
    for ev in r.events:
        if ev.kind == 'scheme._init_mat' and ev.data['recv'] is r.scheme:
            d = ev.data['contents'].get('dim')
            ctx.count('sizes')
            ctx.ob('the size is that of the start point',
                   f'{w}: {where(e, ev)}', d is not None and all(
                       l.op == 'len' or l.op == 'getitem'
                       for _, l in pairs(d)), show(d, 3) if d else '-')


MINI = 'fides/minimize.py'


# --------------------------------------------------------------------- C34
def enforced(eng, st):
    return bt(TRUE)


def value(x):
    return lambda eng, st: spec(eng, st.fork(), f'return {x!r}')


def bfgs(eng, st):
    return H.scheme_instance(eng, st, 'BFGS',
                             given={'enforce_curv_cond': enforced})


DEFAULTS = {
    'BFGS': {'enforce_curv_cond': enforced},
    'DFP': {'enforce_curv_cond': enforced},
    'Broyden': {'enforce_curv_cond': enforced},
    'HybridFixed': {'happ': bfgs, 'switch_iteration': value(20)},
    'HybridFraction': {'happ': bfgs, 'switch_threshold': value(0.8)},
    'FX': {'happ': bfgs, 'hybrid_tol': value(0.2)},
    'SSM': {'phi': value(0.0), 'enforce_curv_cond': enforced},
    'TSSM': {'phi': value(0.0), 'enforce_curv_cond': enforced},
    'GNSBFGS': {'hybrid_tol': value(1e-6), 'enforce_curv_cond': enforced},
}


def c34(ctx):
    """Defaults of the parameters of update schemes."""
    for name, ds in DEFAULTS.items():
        w = place(srun(ctx, name), '__init__')
        sets = [dict(ds)] if len(ds) == 1 else [
            dict(ds)] + [{k: v} for k, v in ds.items()]
        for sub in sets:
            try:
                a = outcome(ctx, name, dict.fromkeys(sub))
            except AnalysisError as x:
                a = {'outcome': sym(f'failure: {x}')}
            b = outcome(ctx, name, sub)
            ctx.count('parameter sets')
            for k in sorted(set(a) | set(b)):
                x, y = a.get(k), b.get(k)
                ctx.count('values compared')
                ctx.ob(f'leaving out {", ".join(sub)} means the documented '
                       'default', f'{w}: {k}', x is not None and y is not
                       None and equal(x, y),
                       equal_cex(x, y) if x is not None and y is not None
                       else 'present with one of them only')
    for name in HYBRID:
        eng, st, (p, q) = twice(ctx, name)
        ctx.count('instances')
        own = [reach(st, x) for x in (p, q)]
        ctx.ob('each hybrid has an iterative scheme of its own',
               place(srun(ctx, name), '__init__'), not (own[0] & own[1]),
               str(sorted(map(str, own[0] & own[1])))[:300])
    # settings without guarantee are announced
    for name in ('Broyden', 'SSM', 'TSSM'):
        r = srun(ctx, name)
        evs = [ev for ev in r.new_events if ev.kind == 'extcall' and
               ev.data.get('name') == 'warnings.warn']
        g = disj(*[ev.pc for ev in evs])
        p = sym('p_phi')
        want = lt(p, ZERO) | lt(ONE, p)
        ctx.count('warnings')
        ctx.ob('phi outside of [0, 1], and no other, causes a warning',
               place(r, '__init__'), never((g & ~want) | (~g & want)),
               f'warns if {showb(g, 4)[:300]}')


def reach(st, v):
    """Objects reachable from a value."""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.op != 'ref' or x.args[0] in seen or \
                x.args[0] not in st.heap:
            continue
        seen.add(x.args[0])
        todo += list(st.heap[x.args[0]].f.values())
    return {o for o in seen if st.heap[o].kind == 'inst'}


def twice(ctx, name):
    eng = H.Engine(ctx.repo, config={})
    st = eng.base.fork()
    out = []
    for _ in range(2):
        out.append(H.scheme_instance(eng, st, name, given=dict.fromkeys(
            DEFAULTS[name])))
    return eng, st, out


def outcome(ctx, name, given):
    """What an update leaves behind: {what: term}."""
    r = H.scheme_run(name, 'BFGS', ctx.repo, True, given=given)
    out = {'get_mat()': H.getter(r, 'get_mat', r.st),
           'get_diff()': H.getter(r, 'get_diff', r.st),
           'initial matrix': r.init_mat}
    for (oid, k) in r.stale:
        v = r.st.get(oid, k)
        if isinstance(v, T) and v is not ABSENT:
            pre = '' if oid == r.oid else 'inner '
            out[f'{pre}{k}'] = r.eng.content(v, r.st)
    return out
