"""Search directions of each solver (C35)."""

from .steps import *  # noqa: F401,F403
from .steps import (step, fld, cloc, obeq, sspec, prev, short,
                    candidate_classes, mk, sym, N0)
from ..interp import AnalysisError, NONE, ABSENT
from ..terms import _atoms
from ..ext import EPS

DIRECTIONS = '''
D = csc_matrix(np.diag(dvec))
nt = -linalg.lstsq(B, sg)[0]
e, v = np.linalg.eig(B)
psd = np.min(np.real(e)) > -np.spacing(1) * np.max(np.abs(e))
ev = np.real(v[:, np.argmin(np.real(e))])
gr = sg
sn = D.dot(np.sign(sg) + (sg == 0))
return nt, 1.0 * psd, 1.0 * (norm(nt) < delta), ev, sn
'''
UNIT = '''
n = norm(v)
return v / n if n > 0 else v
'''
REST = '''
return b - a * a.dot(b)
'''


def c35(ctx):
    for cls in candidate_classes(ctx):
        r = step(ctx, cls, False)
        w = cloc(r, cls)
        n = short(cls)
        ctx.count('candidate classes')
        if any(e.kind == 'solve_bnd' for e in r.events):
            conjugate(ctx, r, w)
            continue
        V = fld(r, r.st_init, 'subspace')
        p = 'step' in r.args
        kind = kind_of(r, cls)
        if kind == 'refined':
            refined(ctx, r, w, V)
        elif kind == 'reflected':
            reflected(ctx, r, w, V)
        elif kind == 'truncated':
            truncated(ctx, r, w, V)
        elif kind == 'gradient':
            line(ctx, r, w, V, sym('sg'), 'the scaled gradient',
                 r.st_init.pc)
        elif kind == '2d':
            two(ctx, r, w, V)
        elif kind == 'nd':
            ok = V.op == 'eye' or equal(V, mk('eye'))
            ctx.ob('the full solver searches the whole space', w, ok,
                   show(V, 4)[:300])
        else:
            raise AnalysisError(f'unknown kind of candidate {n}: {p}')
    ctx.need('candidate classes', ctx.stats.get('candidate classes', 0), 5)


def kind_of(r, cls):
    """By class, or by the documented type identifiers."""
    k = {'TRStep2D': '2d', 'TRStepFull': 'nd', 'GradientStep': 'gradient',
         'TRStepReflected': 'reflected', 'TRStepTruncated': 'truncated',
         'RefinedStep': 'refined'}.get(short(cls))
    if k is None:
        t = show(r.eng.getattr(r.step, 'type', r.st.fork(), N0), 2)
        k = {'2d': '2d', 'nd': 'nd', 'g': 'gradient', 'trr': 'reflected',
             'trt': 'truncated', 'ref': 'refined'}.get(t.strip("'"))
    return k


def sp(r, src, **env):
    return sspec(r, r.st_init, src, **env)


def leaves(t, g):
    """Leaves of a term and of the table that it is computed from."""
    for h, x in pairs(t):
        if not sat(g & h):
            continue
        c = next((y for y in subterms(x) if y.op == 'cases'
                  and y is not x), None)
        if c is None:
            yield g & h, x
            continue
        for k, z in pairs(c):
            if sat(g & h & k):
                yield from leaves(subst(x, {c: z}.get), g & h & k)


def settled(t):
    """Reading what was just written."""
    def f(x):
        if x.op == 'getitem':
            a, k = settled(x.args[0]), x.args[1]
            if a.op == 'setitem' and a.args[1] is k:
                return settled(a.args[2])
        return None

    return subst(t, f)


def plain(t, memo):
    """Values without NaN, where comparisons and tables have a unique
    form."""
    mem = {}

    def atomf(a, go):
        if a.op != 'lt0':
            return None
        e = go(a.args[0])
        if numval(e) is None and e.op not in ('cases', 'ew', 'gather') and \
                lin_items(e)[0][1] < 0:
            return ~cmp0('lt0', neg(e)) & ~cmp0('eq0', e)
        return cmp0('lt0', e)

    def go(x):
        return subst(x, f, mem, atomf)

    def f(x):
        if x.op != 'ew':
            return None
        its = [(tob(go(bt(g))), go(y)) for g, y in x.args[0]]
        care = TRUE
        for g, _ in its:
            for v in support(g):
                a = _atoms[v]
                if a.op == 'lt0':
                    care = care & ~(atom(a) & cmp0('eq0', a.args[0]))
        its = [(constrain(g, care), y) for g, y in its if sat(g & care)]
        out = its[-1][1]
        for g, y in reversed(its[:-1]):
            out = ew(g, y, out)
        return out

    return go(nanfree_form(t, memo))


def columns(V):
    """Columns of a matrix."""
    if V.op == 'col':
        return [V.args[0]]
    if V.op == 'T':
        m = V.args[0]
        if m.op == 'call' and m.args[0] in ('vstack', 'array'):
            its = m.args[1:]
            if len(its) == 1 and its[0].op == 'tuple':
                its = its[0].args[0]
            if all(rank(x) == 1 for x in its):
                return list(its)
        if m.op == 'row':
            return [m.args[0]]
    if V.op == 'call' and V.args[0] == 'block' and all(
            x.op == 'col' for x in V.args[1:]):
        return [x.args[0] for x in V.args[1:]]
    return None


def along(r, v, d, g, unit=False):
    """v is a multiple of d (of length one)."""
    u = sp(r, UNIT, v=d)
    for x in (u, d)[:1 if unit else 2]:
        for y in (x, neg(x)):
            if equal(v, y, g):
                return True
            if equal(settled(v), settled(y), g):
                return True
    return False


def line(ctx, r, w, V, d, name, pc):
    """The subspace is spanned by one direction."""
    for g, x in leaves(V, pc):
        c = columns(x)
        ctx.count('subspaces compared')
        ctx.ob(f'the subspace is {name}', w, c is not None and len(c) == 1
               and along(r, c[0], d, g), f'{show(x, 6)[:600]} when '
               f'{showb(g, 3)[:300]}')


def two(ctx, r, w, V):
    st = r.st_init
    B, sg = fld(r, r.st_init, 'shess'), sym('sg')
    D = sym('delta', rank=0, notnone=True)
    nt, psd, near, ev, sn = sp(
        r, DIRECTIONS, B=B, sg=sg, delta=D, dvec=sym('dvec')).args[0]
    psd, near = lt(ZERO, psd), lt(ZERO, near)
    single = eqn(mk('len', sym('g')), ONE)
    ctx.count('subspaces compared', 4)
    memo = {}
    V = settled(plain(V, memo))
    sn = plain(sn, memo)
    for g, x in leaves(V, st.pc):
        g1 = g & ~single
        c = columns(x)
        at = f'{show(x, 5)[:500]} when {showb(g, 3)[:300]}'
        if sat(g & single):
            ctx.ob('one variable: any direction that does not depend on a '
                   'division by the Hessian', w, x.op in (
                       'ones', 'eye', 'full') if c is None else not any(
                       b.op != 'norm' and k < 0 for y in c
                       for z in subterms(y) if z.op == 'prod'
                       for b, k in z.args[0]), at)
        if not sat(g1):
            continue
        if c is None:
            ctx.ob('the subspace is spanned by the documented directions',
                   w, False, at)
            continue
        for h, d, o, what in (
                (psd, nt, sg, 'positive semidefinite: the Newton step'),
                (~psd, ev, sn, 'indefinite: the direction of smallest '
                 'curvature')):
            if not sat(g1 & h):
                continue
            q = g1 & h
            i = next((i for i, y in enumerate(c)
                      if along(r, y, d, q, len(c) > 1)), None)
            ctx.ob(f'{what} is searched', w, i is not None, at)
            if i is None:
                continue
            second = 'the scaled gradient' if h is psd else \
                'the scaled sign of the gradient'
            long = lt(ZERO, norm_(d))
            for q2, u in ((q & long, div(d, norm_(d))), (q & ~long, d)):
                if never(q2):
                    continue
                rest = plain(sp(r, REST, a=u, b=o), memo)
                some = lt(EPS, norm_(rest))
                if len(c) == 1:
                    ctx.ob(f'{what}, with {second} as second direction', w,
                           never(q2 & some & ~near if h is psd
                                 else q2 & some), at)
                    continue
                z = [y for j, y in enumerate(c) if j != i]
                ctx.ob(f'{what}, with {second} as second direction', w,
                       len(z) == 1 and along(
                           r, z[0], rest, q2 & some, True), at)
                ctx.ob('directions are linearly independent', w,
                       never(q2 & ~some), at)
                if h is psd:
                    ctx.ob('a Newton step shorter than the radius is the '
                           'only direction', w, never(q2 & near), at)


def reflected(ctx, r, w, V):
    d = sp(r, '''
v = og_ss.copy()
v[iminbr] *= -1
return v''', og_ss=prev(r, r.st_init, 'og_ss'),
           iminbr=prev(r, r.st_init, 'iminbr'))
    line(ctx, r, w, V, d, 'the last segment with the sign of the variables '
         'at the bound reversed', r.st_init.pc)


def truncated(ctx, r, w, V):
    wants = [sp(r, f'''
t = V.copy()
t[{k}] = 0
return t[:, (t != 0).any(axis=0)]''', V=prev(r, r.st_init, 'subspace'),
                iminbr=prev(r, r.st_init, 'iminbr'))
             for k in ('iminbr, :', 'iminbr')]
    for g, x in leaves(V, r.st_init.pc):
        ctx.count('subspaces compared')
        at = f'{show(x, 6)[:600]}'
        L = None
        if x.op == 'mu':
            L = next((L for L in r.loops if L.id == x.args[0]), None)
            q = head_path(r, L, x)
            if q is None:
                raise AnalysisError('loop over the directions not found')
            x0 = r.eng.path_entry(L.entry, q)
            at = show(x0, 6)[:600]
            for h, y in pairs(L.endvals[q][0]):
                ctx.ob('directions are only scaled', w,
                       sat(h) is False or scaled_column(x, y),
                       show(y, 5)[:400])
                if y.op == 'setitem':
                    ctx.ob('each direction is scaled to length one', w,
                           contains(y.args[1], lambda z: z.op == 'mu' and
                                    z.args[0] == L.id) or L.kind != 'for',
                           show(y.args[1], 4)[:300])
            x = x0
        ctx.ob('the subspace is the previous one without the variables at '
               'the bound', w, any(equal(x, want, g) or contains(
                   x, lambda z: z is want) for want in wants), at)


def head_path(r, L, x):
    """Path whose value at the head of the loop is x."""
    for p in L.endvals if L is not None else ():
        if head_of(r.eng, L, p) is x:
            return p
    return None


def scaled_column(x, y):
    """y is x, or x with a column multiplied by a number."""
    if y is x:
        return True
    if y.op != 'setitem' or y.args[0] is not x:
        return False
    a = mk('getitem', x, y.args[1])
    v = y.args[2]
    if v.op != 'prod' or not contains(v, lambda z: z is a):
        return False
    q = div(v, a)
    return rank(q) == 0 and not equal(q, ZERO)


def refined(ctx, r, w, V):
    pc = r.st_init.pc
    C, g, S = (prev(r, r.st_init, n) for n in ('chess', 'cg', 'subspace'))
    obeq(ctx, 'refined steps search the subspace of the step', w, V, S, pc)
    sc, ss = fld(r, r.st, 'og_sc'), fld(r, r.st, 'og_ss')
    calls = {x for x in subterms(sc) if x.op == 'call'
             and x.args[0] == 'scipy.optimize.minimize'}
    if len(calls) != 1:
        raise AnalysisError('refined steps are not those of one minimization')
    call = calls.pop()
    st = r.st.fork()
    st.pc = TRUE
    ctx.count('subspaces compared')
    obeq(ctx, 'refined step is the combination of the directions', w, ss,
         spec(r.eng, st, 'return S.dot(c)', S=box(r.eng, st, S),
              c=box(r.eng, st, sc)), r.st.pc)
    kw = {a.args[0]: a.args[1] for a in call.args[1:] if a.op == 'kw'}
    pos = [a for a in call.args[1:] if a.op != 'kw']
    for n, a in zip(('fun', 'x0', 'args', 'method', 'jac', 'hess'), pos):
        kw[n] = a
    c = sym('coefficients', rank=1, notnone=True)
    env = dict(C=box(r.eng, st, C), g=box(r.eng, st, g),
               S=box(r.eng, st, S), c=box(r.eng, st, c))

    def at(f):
        return applied(r, st, f, c)

    def want(src, **more):
        return spec(r.eng, st, src, **env, **more)

    if 'fun' not in kw or 'x0' not in kw:
        raise AnalysisError('objective of the refinement not found')
    obeq(ctx, 'refinement minimizes the model', w, at(kw['fun']),
         want('return 0.5 * c.T.dot(C).dot(c) + g.dot(c)'))
    obeq(ctx, 'refinement starts from the step', w, kw['x0'],
         prev(r, r.st_init, 'sc'))
    for n, src in (('jac', 'return C.dot(c) + g'), ('hess', 'return C')):
        if n in kw and kw[n].op in ('func', 'bound', 'method', 'partial'):
            obeq(ctx, f'refinement uses the {n} of the model', w,
                 at(kw[n]), want(src))
    cons = kw.get('constraints')
    cons = () if cons is None else cons.args[0] if cons.op == 'tuple' else (
        cons,)
    radius = bounds = False
    D = sym('delta', rank=0, notnone=True)
    more = dict(x=box(r.eng, st, sym('x')), theta=sym('theta'),
                d=box(r.eng, st, sym('dvec')))
    for k in cons:
        if k.op != 'call':
            raise AnalysisError('unknown constraint of the refinement')
        name = k.args[0].split('.')[-1]
        names = {'NonlinearConstraint': ('fun', 'lb', 'ub', 'jac', 'hess'),
                 'LinearConstraint': ('A', 'lb', 'ub')}.get(name)
        if names is None:
            raise AnalysisError(f'unknown constraint {name}')
        a = {y.args[0]: y.args[1] for y in k.args[1:] if y.op == 'kw'}
        a.update(zip(names, [y for y in k.args[1:] if y.op != 'kw']))
        if name == 'NonlinearConstraint':
            v = sub(at(a['fun']), a['ub'])
            n0 = want('return norm(S.dot(c)) - D', D=D)
            radius = radius or any(equal(flat1(x), y) for x in (v,) for y in (
                n0, sub(powr(add(n0, D), 2), powr(D, 2))))
            ctx.ob('the radius bounds the refined step', w, radius,
                   show(v, 6)[:300])
        else:
            for P, q in (('S', '/ d'), ('D.dot(S)', '')):
                A = want(f'D = csc_matrix(np.diag(d))\nreturn {P}', d=more[
                    'd'])
                if equal(a['A'], A):
                    ok = all(equal(a[b], want(
                        f'return theta * (b - x) {q}', b=box(
                            r.eng, st, sym(b)), **more))
                        for b in ('lb', 'ub'))
                    ctx.ob('the refined step keeps its distance to the '
                           'bounds', w, ok, show(k, 6)[:400])
                    bounds = True
    ctx.ob('refinement is constrained by the radius and by the bounds', w,
           radius and bounds, show(kw.get('constraints', NONE), 4)[:400])


def flat1(x):
    """A value as one-element array."""
    def f(z):
        if z.op in ('ones', 'zeros') and rank(z) == 1:
            return ONE if z.op == 'ones' else ZERO
        return None

    return subst(x, f)


def applied(r, st, f, c):
    """Value of a function of the source for the coefficients c."""
    s = st.fork()
    e = r.eng
    e.dry += 1
    try:
        return e.content(e.call(f, [box(e, s, c)], {}, s, N0), s)
    finally:
        e.dry -= 1


ITERATE = '''
bd = B.dot(d)
c = d.dot(bd)
r2 = np.dot(rr, rr)
a = r2 / c
zp = z + a * d
rp = rr + a * bd
rp2 = np.dot(rp, rp)
return c, zp, norm(zp), rp, np.sqrt(rp2), -rp + rp2 / r2 * d
'''


def conjugate(ctx, r, w):
    """Conjugate gradients of Steihaug."""
    e, st = r.eng, r.st
    evs = [x for x in r.events if x.kind == 'solve_bnd']
    sg, D = sym('sg'), sym('delta', rank=0, notnone=True)
    B = fld(r, r.st_init, 'shess')
    hits = FALSE
    for ev in evs:
        c = ev.data['contents']
        mus = {x for x in subterms(c['s']) if x.op == 'mu' and rank(x) == 1}
        zs = {x for x in subterms(c['s0']) if x.op == 'mu' and rank(x) == 1}
        if len(mus) != 1 or len(zs) != 1:
            raise AnalysisError('direction of conjugate gradients not found')
        d, z = mus.pop(), zs.pop()
        L = next((L for L in r.loops if L.id == d.args[0]), None)
        hits = hits | ev.pc
    if L is None:
        raise AnalysisError('conjugate gradients without loop')
    pd, pz = head_path(r, L, d), head_path(r, L, z)
    pr, rr = None, None
    for p in L.endvals:
        if p in (pd, pz):
            continue
        v = head_of(e, L, p)
        if v is not None and v.op == 'mu' and rank(v) == 1 and equal(
                e.path_entry(L.entry, p), sg):
            pr, rr = p, v
    if pd is None or pz is None:
        raise AnalysisError('iterates of conjugate gradients not found')
    if rr is None:
        rr = sp(r, 'return sg + B.dot(z)', sg=sg, B=B, z=z)
    ctx.count('subspaces compared')
    ctx.ob('conjugate gradients start at the current point', w, equal(
        e.path_entry(L.entry, pz), ZERO) or e.path_entry(
            L.entry, pz).op == 'zeros', show(e.path_entry(L.entry, pz)))
    ok = any(equal(e.path_entry(L.entry, pd), x) for x in (neg(sg), sg))
    ctx.ob('the first direction is that of the gradient', w, ok,
           show(e.path_entry(L.entry, pd), 4))
    cu, zp, nz, rp, nr, dp = sp(r, ITERATE, B=B, d=d, z=z, rr=rr).args[0]
    eps = sp(r, 'return min(0.5, np.sqrt(norm(sg))) * norm(sg)', sg=sg)
    hit = le(cu, ZERO) | le(D, nz)
    conv = lt(nr, eps)
    # which of the two tolerances is the smaller one
    n1 = norm_(sg)
    e1, e2, e3 = sp(r, 'n = norm(sg)\nreturn 0.5 * n, np.sqrt(n) * n, '
                    'np.sqrt(n)', sg=sg).args[0]
    h = lt(sp(r, 'return 0.5'), e3)
    facts = TRUE
    for c, v in ((lt, nr), (le, n1)):
        a = c(v, eps)
        for q, b in ((h, c(v, e1)), (~h, c(v, e2))):
            facts = facts & (~q | (a & b) | (~a & ~b))
    for p, v, n in ((pz, zp, 'point'), (pr, rp, 'residual'),
                    (pd, dp, 'direction')):
        if p is None:
            continue
        for g, x in pairs(L.endvals[p][0]):
            obeq(ctx, f'next {n} of conjugate gradients', w, x, v,
                 g & L.ends.pc)
    inside = L.body.pc
    it = L.iterable
    if it is not None and it.op == 'call' and it.args[0] == 'range' and \
            len(it.args) == 2:
        n = mk('len', sym('g'))
        ctx.ob('as many iterations as variables are allowed', w, not sat(
            L.entry.pc & lt(ZERO, n) & lt(it.args[1], n)),
            show(it, 4)[:300])
    ctx.ob('the boundary is taken exactly for directions of negative '
           'curvature and points outside the radius', w,
           never(hits & ~hit & inside) and never(inside & hit & ~hits),
           f'when {showb(hits, 4)[:500]}')
    ctx.ob('iterations go on until the residual is small', w,
           never(L.ends.pc & conv & facts), showb(L.ends.pc, 4)[:500])
    for g, x in leaves(fld(r, st, 'og_ss'), st.pc):
        if any(contains(x, lambda y: y is ev.data['result']) for ev in evs):
            continue
        if x.op == 'zeros':
            ctx.ob('no step only for a gradient of zero', w, entails(
                g & facts, le(n1, eps)), showb(g, 4)[:300])
            continue
        if contains(x, lambda y: y is NONE):
            continue
        ctx.ob('the step is the last iterate', w, equal(x, zp, g),
               show(x, 6)[:400])
        last = lasts(L, g)
        ctx.ob('it is taken if the residual is small or after the last '
               'iteration', w, never(g & ~conv & ~last & facts), showb(g, 5)[:500])


def lasts(L, g):
    """This is the last iteration."""
    out = FALSE
    it = L.iterable
    rng = it is not None and it.op == 'call' and it.args[0] == 'range'
    for v in support(g):
        t = _atoms[v]
        cs = {y for y in subterms(t) if y.op == 'mu' and y.args[0] == L.id
              and not rank(y)}
        if rng:
            for i in cs:
                out = out | eqn(i, sub(it.args[-1], ONE))
        elif cs and not any(y.op == 'mu' and y not in cs
                            for y in subterms(t)):
            # a test of a counter only
            out = out | (atom(t) if sat(g & atom(t)) and not sat(
                g & ~atom(t)) else TRUE)
    return out


def head_of(e, L, p):
    try:
        return e.path_entry(L.head, p)
    except (KeyError, AttributeError):
        return None
