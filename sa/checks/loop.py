"""Properties of the main loop of Optimizer.minimize (C04-C10, C12)."""

from .base import *  # noqa: F401,F403
from .base import Iter, run, spec, equal, equal_cex, ALL, label, pairs, where
from ..interp import AnalysisError, ABSENT, NONE, State
from ..terms import mk
from .. import harness as H

MIN = 'fides/minimize.py Optimizer.minimize'


# ----------------------------------------------------------------- helpers
DEFAULTS = {
    'maxiter': num(1000), 'maxtime': INF, 'fatol': num(1e-8),
    'frtol': num(1e-8), 'xtol': num(0), 'gatol': num(1e-6), 'grtol': num(0),
    'theta_max': num(0.95), 'delta_init': num(1), 'mu': num(0.25),
    'eta': num(0.75), 'gamma1': num(0.25), 'gamma2': num(2),
    'history_file': NONE,
}


def opt(r, name):
    """Value of an option, with the default the package uses for it."""
    m = r.__dict__.setdefault('optmemo', {})
    if name not in m:
        e = r.eng
        v = None
        if e.lookup_class(H.OPT, 'get_option') is not None:
            st = r.entry.fork()
            e.dry += 1
            v = e.call_method(r.opt, 'get_option', [const(name)], {}, st,
                              H.N0)
            e.dry -= 1
            v = e.content(v, st)
        if v is None or v.op != 'dictget':
            v = mk('dictget', sym('options'), const(name), DEFAULTS.get(
                name, NONE))
        m[name] = v
    return m[name]


def literals(g):
    """Literals (atom term, polarity) that g implies propositionally."""
    out = []
    for v in sorted(support(g)):
        if restrict(g, v, False) is FALSE:
            out.append((atom_of(v), True))
        elif restrict(g, v, True) is FALSE:
            out.append((atom_of(v), False))
    return out


def cases_of(t):
    return pairs(t)


def changed(it, name):
    """Guard under which a field changes in an iteration, with leaves."""
    h, e = it.h(name), it.e(name)
    g = FALSE
    leaves = []
    for c, l in pairs(e):
        if l is h:
            continue
        g = g | c
        leaves.append((c, l))
    return g, leaves


def proves_less(g, a, b):
    """g implies a < b for numbers a, b, from one of its literals, up to
    multiplication with factors of known sign (also strict)."""
    lits = literals(g)
    d = sub(b, a)
    pos = []  # terms known > 0
    for t, p in lits:
        if t.op == 'lt0' and p:
            pos.append(neg(t.args[0]))
        if t.op == 'le0' and not p:
            pos.append(t.args[0])
    signs = {}
    for t in pos:
        its = lin_items(t)
        if len(its) == 1 and len(mono_items(its[0][0])) == 1:
            b0, e0 = mono_items(its[0][0])[0]
            signs[b0] = 1 if its[0][1] > 0 else -1
    cand = list(pos)
    for t in pos:
        fs = set()
        for m, k in lin_items(t):
            fs |= {x for x, e in mono_items(m) if x in signs}
        for x in fs:
            for e in (1, -1):
                cand.append(scale(mul(t, powr(x, e)), signs[x]))
    for t in cand:
        if sign_nonneg(sub(d, t)) or sub(d, t) is ZERO:
            return True
        # positive multiple
        its = lin_items(t)
        for m, k in lin_items(d):
            for m2, k2 in its:
                if m is m2 and k2 * k > 0:
                    if sign_nonneg(sub(d, scale(t, k / k2))):
                        return True
    return False


def trial(it):
    if len(it.evals) != 1:
        raise AnalysisError(f'{len(it.evals)} evaluations of the objective '
                            'in an iteration')
    return it.evals[0]


def model(it):
    return it.ev_model(trial(it))


# --------------------------------------------------------------------- C04
def c04(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        f = it.h('fval')
        F = [it.ev_model(ev)[0] for ev in it.evals]
        ctx.count('iterations analysed')
        for field in ('fval', 'x', 'grad'):
            g, leaves = changed(it, field)
            ctx.count('replacement cases', len(leaves))
            gg = g & it.end.pc
            # a new solution is only adopted for a smaller finite value
            ok = any(decreases(g, fn, f) or decreases(gg, fn, f)
                     for fn in F)
            ctx.ob('adopted only if finite and strictly smaller',
                   f'{MIN} ({label(name)}, {field})', ok,
                   f'{field} is replaced if {showb(g, 5)[:1500]}, which does '
                   f'not imply that the new value is finite and smaller')
        for c, l in changed(it, 'fval')[1]:
            ctx.ob('the adopted value is the evaluated one',
                   f'{MIN} ({label(name)})', l in F, show(l))
        # returned value is the current one; the first is the start value
        init = it.ev_model(it.init_evals[0])[0] if it.init_evals else None
        e0 = it.field(it.L.entry, 'fval')
        ctx.ob('the first iterate has the value of the start point',
               f'{MIN} ({label(name)})', init is not None and equal(
                   e0, init, it.L.entry.pc), show(e0))
        rv = returned(r)
        cur = it.field(r.st, 'fval')
        ctx.ob('the returned value is the current one',
               f'{MIN} ({label(name)})', rv is not None and equal(
                   rv[0], cur, r.st.pc) and equal(cur, f, r.st.pc), show(
                   r.ret))
    ctx.need('replacement cases', ctx.stats.get('replacement cases', 0), 13)


def decreases(g, fn, f):
    if not entails(g, isfinite(fn)):
        return False
    return proves_less(g, fn, f)




def returned(r):
    v = r.ret
    e = r.eng
    c = e.content(v, r.st)
    if c.op == 'tuple':
        return list(c.args[0])
    if c.op == 'cases' and all(l.op == 'tuple' for _, l in c.args[0]):
        n = {len(l.args[0]) for _, l in c.args[0]}
        if len(n) == 1:
            return [mkcases([(g, l.args[0][i]) for g, l in c.args[0]])
                    for i in range(n.pop())]
    return None


# --------------------------------------------------------------------- C05
TRACKERS = {'delta', 'delta_iter', 'tr_ratio', 'converged', 'exitflag',
            'iteration', 'iterations_since_tr_update',
            'n_intermediate_tr_radius', 'x_min', 'fval_min', 'grad_min',
            'history'}


def path_name(p):
    return str(p[0][1]) + ''.join('.' + str(x) for x in p[1:])


def head_symbols(it):
    """{head symbol: path} of the loop-carried memory."""
    L = it.L
    out = {}
    for p in sorted(L.varying, key=lambda p: (len(p), str(p))):
        try:
            v = it.eng.path_entry(L.head, p)
        except (KeyError, AttributeError):
            continue
        if v is None or v is ABSENT or not isinstance(v, T):
            continue
        for g, l in pairs(v):
            if l.op in ('mu', 'mub', 'mulist'):
                out.setdefault(l, p)
        if v.op == 'b':
            for a in batoms(v.args[0]):
                if a.op in ('mub', 'mu', 'munone'):
                    out.setdefault(a, p)
    return out


def path_end(it, p):
    """Content of a loop-carried location at the end of an iteration."""
    e = it.eng
    v = it.L.endvals.get(p)
    if v is None:
        return None
    v, heap = v
    try:
        return e.content(v, State(heap, it.end.pc))
    except (KeyError, AttributeError):
        return v


def path_head(it, p):
    v = it.eng.path_entry(it.L.head, p)
    try:
        return it.eng.content(v, it.L.head)
    except (KeyError, AttributeError):
        return v


def acceptance(it):
    """Guard under which the trial point is adopted in an iteration."""
    return changed(it, 'fval')[0]


def core_paths(it):
    """Loop-carried locations that the current solution (value, point,
    gradient, Hessian, scheme state) depends on, trackers aside."""
    syms = head_symbols(it)
    opt = it.r.oid
    start = [p for p in it.L.varying if p[0][0] == opt and p[0][1] in (
        'x', 'fval', 'grad', 'hess')]
    sch = scheme_oids(it)
    start += [p for p in it.L.varying if p[0][0] in sch]
    todo, seen = list(start), []
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.append(p)
        t = path_end(it, p)
        if t is None or t.op == 'ref':
            continue
        for s in subterms(t):
            if s in syms:
                q = syms[s]
                if q[0][0] == opt and q[0][1] in TRACKERS:
                    continue
                if q not in seen:
                    todo.append(q)
    return seen


def scheme_oids(it):
    r = it.r
    if r.scheme is NONE:
        return set()
    out, todo = set(), [r.scheme]
    while todo:
        v = todo.pop()
        if v.op != 'ref' or v.args[0] in out:
            continue
        o = it.end.heap.get(v.args[0])
        if o is None or o.kind not in ('inst', 'dict', 'list'):
            continue
        out.add(v.args[0])
        todo += [x for x in o.f.values() if isinstance(x, T)]
    return out


def c05(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        acc = acceptance(it)
        ctx.count('iterations analysed')
        ctx.need('acceptance of trial points', 0 if acc is FALSE else 1)
        rej = it.end.pc & ~acc
        for p in core_paths(it):
            t0, t1 = path_head(it, p), path_end(it, p)
            if t1 is None or t0 is None:
                continue
            if t0.op == 'ref' or any(l.op == 'ref' for _, l in pairs(t1)):
                continue  # compound object; its parts are paths as well
            ctx.count('locations compared')
            ctx.ob('kept if the trial point is rejected',
                   f'{MIN} ({label(name)}, {path_name(p)})',
                   equal(t1, t0, rej), equal_cex(t1, t0, rej))
        for f in ('x', 'grad', 'hess'):
            g, leaves = changed(it, f)
            # schemes may skip an update, and with it the new Hessian
            ok = equivalent(g, acc, True, it.end.pc) if name is None or \
                f != 'hess' else not sat(g & ~acc & it.end.pc, True)
            ctx.ob('replaced in all accepted iterations, and only then',
                   f'{MIN} ({label(name)}, {f})', ok,
                   f'{f} changes if {showb(g, 5)[:900]}\nvalue changes if '
                   f'{showb(acc, 5)[:900]}')


# --------------------------------------------------------------------- C06
def nudged(it, st, x):
    """Point x after the inward move of coordinates on a bound."""
    e = it.eng
    lb, ub = it.field(st, 'lb'), it.field(st, 'ub')
    s = st.fork()
    return spec(e, s, '''
eps = 1e2 * np.spacing(1)
a = np.where(ub - x < eps, x - eps, x)
return np.where(x - lb < eps, a + eps, a)
''', x=box(e, s, x), lb=box(e, s, lb), ub=box(e, s, ub))


def elements(l):
    return l.args[0] if l.op == 'ew' else [(TRUE, l)]


def near_point(t, x, pc=TRUE):
    """t differs from x by at most 1e-10 in every coordinate."""
    for g, l in pairs(t):
        for h, y in pairs(x):
            if l is y or not sat(g & h & pc, True):
                continue
            for m, k in elements(l):
                for n, z in elements(y):
                    d = sub(k, z)
                    v = 0 if d.op == 'zeros' else numval(d)
                    if v is not None and abs(v) <= Fraction(1, 10 ** 10):
                        continue
                    if sat(m & n & g & h & pc, True):
                        return False
    return True


def c06(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        w = f'{MIN} ({label(name)})'
        ctx.count('iterations analysed')
        # first iterate
        ctx.need('evaluation of the start point', len(it.init_evals))
        ent = it.L.entry
        check_point(ctx, it, it.init_evals[0], ent, ent.pc, w
                    + ' before the first iteration', name)
        # adopted points
        ev = trial(it)
        acc = acceptance(it)
        check_point(ctx, it, ev, it.end, acc & it.end.pc, w
                    + ' after an accepted step', name)
        # returned tuple
        rv = returned(r)
        ctx.ob('four results are returned', w, rv is not None
               and len(rv) == 4, show(r.ret))
        if rv is not None and len(rv) == 4:
            for n, v in zip(('fval', 'x', 'grad', 'hess'), rv):
                a, b = it.field(r.st, n), it.h(n)
                ctx.ob('results are value, point, gradient and Hessian of '
                       'the current solution', f'{w} result {n}',
                       equal(v, a, r.st.pc) and equal(a, b, r.st.pc),
                       equal_cex(v, a, r.st.pc))


def check_point(ctx, it, ev, st, pc, w, name):
    e = it.eng
    F, G, Hs, _, _ = it.ev_model(ev)
    f = it.field(st, 'fval')
    ctx.ob('value from the evaluation', w, equal(f, F, pc),
           equal_cex(f, F, pc))
    g = it.field(st, 'grad')
    ctx.ob('gradient from the same evaluation', w, equal(g, G, pc),
           equal_cex(g, G, pc))
    x = it.field(st, 'x')
    xe = ev.data['contents'][0]
    ctx.ob('point of the same evaluation', w, near_point(x, xe, pc),
           f'{show(x, 6)[:1500]} is not {show(xe, 6)[:600]}')
    h = it.field(st, 'hess')
    if it.r.scheme is NONE:
        ctx.ob('Hessian from the same evaluation', w,
               equal(h, Hs, pc), equal_cex(h, Hs, pc))
    else:
        m = scheme_matrix(it, st)
        ctx.ob('Hessian is the current matrix of the scheme', w,
               equal(h, m, pc), equal_cex(h, m, pc))
    ctx.count('solutions compared')


def scheme_matrix(it, st, sch=None):
    e = it.eng
    s = st.fork()
    e.dry += 1
    try:
        v = e.call_method(sch or it.r.scheme, 'get_mat', [], {}, s, H.N0)
        return e.content(v, s)
    finally:
        e.dry -= 1


# --------------------------------------------------------------------- C07
def c07(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        w = f'{MIN} ({label(name)})'
        ctx.count('iterations analysed')
        ev = trial(it)
        F, G, _, _, _ = it.ev_model(ev)
        fm = it.h('fval_min')
        better = isfinite(F) & lt(F, fm)
        pc = it.end.pc
        for field, new in (('fval_min', F), ('grad_min', G), ('x_min', None)):
            old, cur = it.h(field), it.e(field)
            kept = pc & ~better
            ctx.ob('kept unless a finite smaller value was found',
                   f'{w} {field}', equal(cur, old, kept, False),
                   equal_cex(cur, old, kept, False))
            upd = pc & better
            if new is None:
                xe = ev.data['contents'][0]
                ok, d = near_point(cur, xe, upd), show(cur, 6)
            else:
                ok, d = equal(cur, new, upd), equal_cex(cur, new, upd)
            ctx.ob('taken from any better evaluation', f'{w} {field}', ok, d)
            ctx.count('fields compared')
        ent = it.L.entry
        F, G, _, _, _ = it.ev_model(it.init_evals[0])
        ok = isfinite(F)
        for field, new in (('fval_min', F), ('grad_min', G)):
            cur = it.field(ent, field)
            ctx.ob('starts with the start point', f'{w} {field}',
                   equal(cur, new, ent.pc & ok), equal_cex(
                       cur, new, ent.pc & ok))
        xe = it.init_evals[0].data['contents'][0]
        cur = it.field(ent, 'x_min')
        ctx.ob('starts with the start point', f'{w} x_min',
               near_point(cur, xe, ent.pc & ok), show(cur, 6))
        # nothing changes them after the last iteration
        for field in ('fval_min', 'grad_min', 'x_min'):
            a, b = it.field(r.st, field), it.h(field)
            ctx.ob('kept until minimize returns', f'{w} {field}',
                   equal(a, b, r.st.pc), equal_cex(a, b, r.st.pc))


# --------------------------------------------------------------------- C08
def flag(e, n):
    return H.enum_member(e, 'ExitFlag', n) if not isinstance(n, str) else \
        enum_by_name(e, 'ExitFlag', n)


def enum_by_name(e, cls, n):
    st = e.base.fork()
    v = e.getattr(mk('cls', 'fides.constants.' + cls), n, st, H.N0)
    return v


def finite_all(t):
    b = isfinite(t)
    return ~any_(~b) if rank(t) else b


def raises_between(r, a, b):
    return [e for e in r.events if e.kind in ('raise', 'implicit_raise')
            and a <= e.seq and (b is None or e.seq < b)]


def bad_paths(ctx, it, cond, a, b, w, rule, flagname, excs=('RuntimeError',),
              other=('ValueError',)):
    """If cond holds after event a, every path ends in a RuntimeError with
    the given exit flag before event b (and no evaluation follows)."""
    r, e = it.r, it.eng
    want = flag(e, flagname)
    for ev in raises_between(r, a, b):
        if ev.data.get('handled'):
            continue
        if not sat(ev.pc & cond):
            continue
        if ev.data['exc'] in other and ev.data['exc'] not in excs:
            continue
        ctx.count('raising paths')
        fl = ev.heap[r.oid].f['exitflag'] if ev.heap and r.oid in ev.heap \
            else NONE
        okf = equal(fl, want, ev.pc & cond)
        ctx.ob(rule, f'{w}: {where(e, ev)}', ev.data['exc'] in excs
               and okf, f'raises {ev.data["exc"]} with exit flag '
               f'{show(fl)} if {showb(ev.pc & cond, 4)[:600]}')


def c08(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        e = it.eng
        w = f'{MIN} ({label(name)})'
        ctx.count('iterations analysed')
        ev0, ev1 = it.init_evals[0], trial(it)
        tr = it.trs[0]
        F, G, Hs, _, _ = it.ev_model(ev0)
        parts = [('value', F), ('gradient', G)]
        if Hs is not None:
            parts.append(('Hessian', Hs))
        ent = it.L.entry
        for n, t in parts:
            bad = ~finite_all(t)
            ctx.ob('start point with non-finite output does not start '
                   'iterations', f'{w} {n}', not sat(ent.pc & bad),
                   f'{n} may be non-finite at the first iteration')
            bad_paths(ctx, it, bad, ev0.seq, tr.seq, w + ' start ' + n,
                      'non-finite start output raises RuntimeError with '
                      'NOT_FINITE', 'NOT_FINITE')
            for ev in (tr, ev1):
                pass
        # gate before each step
        hess = it.field(State(tr.heap, tr.pc), 'hess')
        hb = tr.data['contents'].get('hess', hess)
        hc = hb
        bad = ~finite_all(hc)
        ctx.ob('no step from a non-finite Hessian', f'{w}: {where(e, tr)}',
               not sat(tr.pc & bad),
               'the Hessian may be non-finite where the step is computed')
        first = [x for x in r.events if it.L.id in x.loops]
        start = first[0].seq if first else 0
        bad_paths(ctx, it, bad & it.L.head.pc, start, tr.seq,
                  w + ' current Hessian',
                  'non-finite Hessian raises RuntimeError with NOT_FINITE',
                  'NOT_FINITE')
        # trial output
        F, G, Hs, _, _ = it.ev_model(ev1)
        parts = [('gradient', G)] + ([('Hessian', Hs)]
                                     if Hs is not None else [])
        for n, t in parts:
            bad = isfinite(F) & ~finite_all(t)
            ctx.ob('finite value with non-finite derivative does not pass',
                   f'{w} trial {n}', not sat(it.end.pc & bad),
                   f'an iteration can end normally with finite value and '
                   f'non-finite {n}')
            bad_paths(ctx, it, bad, ev1.seq, None, w + ' trial ' + n,
                      'non-finite trial derivative raises RuntimeError with '
                      'NOT_FINITE', 'NOT_FINITE')
        acc = acceptance(it)
        nf = ~isfinite(F)
        ctx.ob('non-finite value is rejected', w,
               not sat(acc & nf), showb(acc, 5)[:1200])
        ctx.ob('non-finite value is no error', w,
               sat(it.end.pc & nf),
               'iterations never end normally with a non-finite value')
        d1 = it.e('delta')
        want = shrink(it)
        ctx.ob('non-finite value shrinks the trust region', w,
               equal(d1, want, it.end.pc & nf),
               equal_cex(d1, want, it.end.pc & nf))
        src = e.config.get('minsrc', {}).get(want, set())
        ns = scaled_norm(it)
        unsafe = [s for s in src if not nan_safe(s, ns)]
        ctx.ob('shrinking survives a NaN step length', w, not unsafe,
               f'the minimum is computed by {unsafe}, which may yield NaN')


def nan_safe(src, ns):
    if src in ('nanmin', 'fmin'):
        return True
    if src.startswith('builtin:'):
        # min(a, b) returns a if b is NaN
        ids = src[8:].split(',')
        q = scale(ns, Fraction(1, 4))
        return ids[0] != str(q.id)
    return False


def scaled_norm(it):
    return norm_(add(it.sp('ss'), it.sp('ss0')))


def shrink(it):
    return minmax('min', mul(opt(it.r, 'gamma1'), it.h('delta')),
                  scale(scaled_norm(it), Fraction(1, 4)))


# --------------------------------------------------------------------- C12
RATIO = '''
s = ss + ss0
n = norm(s)
pred = -qpval
if not np.isfinite(fn):
    ratio = 0.0
elif pred > 0:
    aug = 0.5 * s.dot(dv * np.abs(gn) * s)
    ratio = (f - fn - aug) / pred
else:
    ratio = 0.0
'''


def step_env(it):
    e, st = it.eng, it.end
    s = st
    p = it.sp
    F, G, _, _, _ = model(it)
    env = {'ss': p('ss'), 'ss0': p('ss0'), 'qpval': p('qpval'), 'f': it.h(
        'fval'), 'fn': F, 'gn': G, 'dv': it.trs[0].data['contents']['dv']}
    return env


def spec_it(it, src, st=None, **env):
    s = (st or it.end).fork()
    s.pc = TRUE
    return spec(it.eng, s, src, **{k: box(it.eng, s, v)
                                   for k, v in env.items()})


def c12(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        w = f'{MIN} ({label(name)})'
        ctx.count('iterations analysed')
        tr = it.trs[0]
        env = step_env(it)
        d0 = it.h('delta')
        ctx.ob('the radius used is the current one', w,
               equal(tr.data['contents']['delta'], d0, tr.pc),
               show(tr.data['contents']['delta']))
        o = {k: opt(r, k) for k in ('gamma1', 'gamma2', 'eta', 'mu')}
        want = spec_it(it, RATIO + '''
if not np.isfinite(fn):
    return min(gamma1 * delta, n / 4)
if ratio >= eta and n >= 0.9 * delta:
    return gamma2 * delta
if ratio <= mu:
    return min(gamma1 * delta, n / 4)
return delta
''', delta=d0, **env, **o)
        got = it.e('delta')
        ctx.ob('the radius follows the ratio test', w,
               equal(got, want, it.end.pc), equal_cex(got, want, it.end.pc))
        ctx.count('radius cases', len(pairs(got)))
        want = spec_it(it, RATIO + 'return ratio', **env)
        got = it.e('tr_ratio')
        ctx.ob('the ratio is actual over predicted decrease', w,
               equal(got, want, it.end.pc), equal_cex(got, want, it.end.pc))
        got = it.field(it.L.entry, 'delta')
        want = opt(r, 'delta_init')
        ctx.ob('each run starts at delta_init', w,
               equal(got, want, it.L.entry.pc), show(got))
        got = it.field(r.st, 'delta')
        ctx.ob('the radius is kept after the last iteration', w,
               equal(got, d0, r.st.pc), show(got))


# --------------------------------------------------------------------- C09
def c09(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        e = it.eng
        w = f'{MIN} ({label(name)})'
        ctx.count('iterations analysed')
        env = step_env(it)
        o = {k: opt(r, k) for k in ('mu', 'fatol', 'frtol', 'xtol', 'gatol',
                                    'grtol')}
        pc = it.end.pc
        tests = spec_it(it, RATIO + '''
g = gn if ratio > 0 else g0
ftol = ratio > mu and np.abs(fn - f) < fatol + frtol * np.abs(f)
xt = iteration > 1 and n < xtol
gt = norm(g) <= gatol or norm(g) <= grtol * np.abs(f)
return ftol, xt, gt
''', **env, **o, g0=it.h('grad'), iteration=it.e('iteration'))
        ft, xt, gt = [tob(x) for x in tests.args[0]]
        conv = it.e('converged')
        want = bt(ft | xt | gt)
        ctx.ob('converged exactly if a test holds', w,
               equal(conv, want, pc), equal_cex(conv, want, pc))
        fl = it.e('exitflag')
        for n, b in (('FTOL', ft), ('XTOL', xt), ('GTOL', gt)):
            v = flag(e, n)
            g = disj(*[c for c, l in pairs(fl) if l is v])
            ctx.count('exit flags')
            ctx.ob('the exit flag names a test that held', f'{w} {n}',
                   not sat(g & ~b & pc, True) and sat(g & pc),
                   showb(g, 5)[:1500])
        names = [flag(e, n) for n in ('FTOL', 'XTOL', 'GTOL')]
        g = disj(*[c for c, l in pairs(fl) if l in names])
        ctx.ob('every converged run has a convergence flag', w,
               not sat(tob(conv) & ~g & pc, True), show(fl, 5)[:1500])
        # a converged run stops, and converged is false to begin with
        ex = it.L.exits
        c0 = tob(it.h('converged'))
        going = FALSE
        for ev in it.trs:
            going = going | ev.pc
        ctx.ob('a converged run makes no further iteration', w,
               not sat(going & c0, True), showb(going, 4)[:800])
        c1 = it.field(it.L.entry, 'converged')
        ctx.ob('a run starts as not converged', w,
               not sat(tob(c1) & it.L.entry.pc, True), show(c1))
        cr = it.field(r.st, 'converged')
        fr = it.field(r.st, 'exitflag')
        ctx.ob('converged is not changed after the iterations', w,
               equal(cr, it.h('converged'), r.st.pc), show(cr))
        ctx.ob('flag of a converged run is kept', w,
               equal(fr, it.h('exitflag'), r.st.pc & c0), show(fr, 5))
        # no convergence flag otherwise
        g = disj(*[c for c, l in pairs(fr) if l in names])
        ctx.ob('stopping at a limit gives no convergence flag', w,
               not sat(g & ~c0 & r.st.pc, True), showb(g, 4)[:800])


# --------------------------------------------------------------------- C10
def c10(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        e = it.eng
        w = f'{MIN} ({label(name)})'
        ctx.count('iterations analysed')
        # one evaluation, one count per iteration
        n = it.h('iteration')
        ctx.ob('an iteration counts once', w, equal(
            it.e('iteration'), add(n, ONE), it.end.pc), show(
                it.e('iteration')))
        ctx.ob('iterations are counted from 0', w, equal(
            it.field(it.L.entry, 'iteration'), ZERO, it.L.entry.pc),
            show(it.field(it.L.entry, 'iteration')))
        ctx.ob('one evaluation in the iteration', w, len(it.evals) == 1
               and it.evals[0].loops == (it.L.id,),
               [where(e, x) for x in it.evals])
        ctx.ob('no iteration without evaluation', w, all(
            not sat(it.end.pc & ~x.pc, True) for x in it.evals),
            'an iteration can end without evaluation')
        ctx.ob('one evaluation of the start point', w,
               len(it.init_evals) == 1 and not it.init_evals[0].loops,
               [where(e, x) for x in it.init_evals])
        ctx.count('evaluations', len(it.evals) + len(it.init_evals))
        # limits
        hd = it.head
        conv = tob(it.h('converged'))
        times = [t for t in impure_terms(r) if t.args[0].startswith('time.')]
        now = None
        cont = it.L.body.pc if it.L.body is not None else FALSE
        it.cont = cont
        # the loop may test its limits in the body: take the iteration
        # that reaches the step computation
        go = disj(*[x.pc for x in it.trs])
        start = it.h('starttime')
        nows = [t for t in times if in_loop(t, it.L.id)]
        ctx.need('reading of the clock before an iteration', len(nows))
        errs = disj(*[x.pc for x in r.events if x.kind in (
            'raise', 'implicit_raise') and it.L.id in x.loops
            and x.seq < it.trs[0].seq])
        fl = it.field(r.st, 'exitflag')
        m = sym('m', rank=0, notnone=True, nonneg=True, integer=True)
        lims = ('MAXITER', 'MAXTIME', 'DELTA_TOO_SMALL')
        # first iteration, later iterations
        for part, val in (('first', ZERO), ('later', add(ONE, m))):
            def sb(t):
                return subst(t, lambda x: val if x is n else None)

            def sbb(g):
                return subst_b(g, lambda x: val if x is n else None)

            go1 = sbb(constrain(go, hd.pc))
            errs1 = sbb(constrain(errs, hd.pc))
            post = sbb(constrain(r.st.pc, hd.pc))
            fl1 = sb(fl)
            best = None
            for now in nows:
                tests = spec_it(it, """
elapsed = now - start
mi = iteration >= maxiter
mt = maxtime - elapsed < elapsed / nn
ds = delta < np.spacing(1)
return mi, mt, ds
""", hd, now=now, start=start, iteration=val,
                                nn=val if val is not ZERO else ONE,
                                maxiter=opt(r, 'maxiter'),
                                maxtime=opt(r, 'maxtime'),
                                delta=it.h('delta'))
                mi, mt, ds = [tob(x) for x in tests.args[0]]
                stop = mi | mt | ds
                # reaching the step computation: no limit holds, and
                # conversely no other way out but an error raised before it
                a = not sat(go1 & (stop | conv), True)
                b = not sat(~stop & ~conv & ~go1 & ~errs1, True)
                if best is None or a and b:
                    best = (a, b, stop, mi, mt, ds)
            a, b, stop, mi, mt, ds = best
            ww = f'{w} {part} iteration'
            ctx.ob('no iteration beyond a limit', ww, a,
                   f'iterations start if {showb(go1, 4)[:1200]}')
            ctx.ob('an iteration is made unless a limit is reached', ww, b,
                   f'iterations start if {showb(go1, 4)[:1200]}')
            post = post & ~conv
            for nm, g in zip(lims, (mi, mt, ds)):
                ctx.count('exit flags')
                v = flag(e, nm)
                ctx.ob('the exit flag names a limit that was reached',
                       f'{ww} {nm}', named_ok(fl1, v, g, post)
                       and sat(post & disj(*[c for c, l in pairs(fl1)
                                             if l is v]), True),
                       show(fl1, 5)[:1500])
            lv = [flag(e, nm) for nm in lims]
            other = disj(*[c for c, l in pairs(fl1) if l not in lv])
            ctx.ob('a run that stops at a limit has its flag', ww,
                   not sat(post & other, True), showb(other, 4)[:1000])
        ctx.ob('the clock starts with the run', w,
               start.op == 'impure' and start not in r.__dict__.get(
                   'stale', {}).values(), show(start))


def named_ok(fl, v, holds, post):
    g = disj(*[c for c, l in pairs(fl) if l is v])
    return not sat(g & ~holds & post, True)


def nonneg_iter(n):
    """Iteration counts are natural numbers."""
    return ~lt(n, ZERO)


def impure_terms(r):
    out = []
    for e in r.events:
        if e.kind == 'impure':
            t = e.data.get('result')
            if t is not None and t not in out:
                out.append(t)
    return out


def in_loop(t, lid):
    return any(lid == x for x in flat(t.args))


def flat(x):
    yield x
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
