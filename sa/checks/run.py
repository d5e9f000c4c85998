"""Further properties of Optimizer runs (C16, C22, C24, C26-C32)."""

from .loop import *  # noqa: F401,F403
from .loop import (acceptance, bad_paths, finite_all, trial, elements, MIN,
                   flag, spec_it, mk, T, RATIO, step_env, scheme_oids,
                   scheme_matrix, head_symbols, path_head, path_end,
                   path_name, impure_terms, returned, opt, model, DEFAULTS,
                   flat, in_loop, changed, near_point)
from ..interp import AnalysisError, ABSENT, NONE, State, Obj, ref


# --------------------------------------------------------------------- C16
def c16(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        e = it.eng
        w = f'{MIN} ({label(name)})'
        ctx.count('iterations analysed')
        ctx.need('step computations', len(it.trs))
        for tr in it.trs:
            c = tr.data['contents']
            lb, ub = sym('lb'), sym('ub')
            for k, f in (('x', 'x'), ('g', 'grad'), ('hess', 'hess'),
                         ('delta', 'delta')):
                cur = it.h(f)
                ctx.ob('the subproblem is posed with the current ' + f,
                       f'{w}: {where(e, tr)}', equal(c[k], cur, tr.pc),
                       equal_cex(c[k], cur, tr.pc))
                ctx.count('arguments compared')
            for k, b in (('lb', lb), ('ub', ub)):
                ctx.ob('the subproblem gets the bounds of the constructor',
                       f'{w}: {where(e, tr)} {k}', c[k] is b, show(c[k]))
            want = spec_it(it, '''
b = np.where(g < 0, ub, lb)
v = np.where(np.isfinite(b), x - b, np.ones(x.shape))
dv = np.where(np.isfinite(b), np.ones(x.shape), np.zeros(x.shape))
return csc_matrix(np.diag(np.sqrt(np.abs(v)))), dv
''', x=it.h('x'), g=it.h('grad'), lb=lb, ub=ub)
            D, dv = want.args[0]
            pc = tr.pc
            ctx.ob('the scaling is that of Coleman and Li',
                   f'{w}: {where(e, tr)}', equal(c['scaling'], D, pc),
                   equal_cex(c['scaling'], D, pc))
            ctx.ob('dv is the derivative of the scaling vector',
                   f'{w}: {where(e, tr)}', equal(c['dv'], dv, pc),
                   equal_cex(c['dv'], dv, pc))
        n = 0
        for ev in r.init_events + r.events:
            if ev.kind == 'arrwrite':
                n += 1
                ctx.ob('bounds are not stored in arrays with the element '
                       'type of an argument', f'{w}: {where(e, ev)}',
                       not ev.data.get('udt'),
                       f'{show(ev.data["new"], 4)[:600]} is stored in place '
                       'in an array with the element type of an argument')
        ctx.count('array stores', n)


# --------------------------------------------------------------------- C22
def carried(it, sym_, first, new, acc):
    """The loop-carried value sym_ is `first` before the loop and `new`
    after each adopted step.  Returns a description of the failure."""
    syms = head_symbols(it)
    p = syms.get(sym_)
    if p is None:
        return f'{show(sym_, 3)} is not carried over iterations'
    v0 = it.eng.path_entry(it.L.entry, p)
    v0 = it.eng.content(v0, it.L.entry)
    if not equal(v0, first, it.L.entry.pc):
        return 'before the first iteration: ' + equal_cex(
            v0, first, it.L.entry.pc)
    v1 = path_end(it, p)
    if not equal(v1, new, acc & it.end.pc):
        return 'after an accepted step: ' + equal_cex(
            v1, new, acc & it.end.pc)
    if not equal(v1, sym_, ~acc & it.end.pc):
        return 'after a rejected step: ' + equal_cex(
            v1, sym_, ~acc & it.end.pc)
    return None


def c22(ctx):
    for name in H.SCHEMES:
        inners = H.ITERATIVE if name in ('HybridFixed', 'HybridFraction',
                                         'FX') and ctx.tier == 'thorough' \
            else ['BFGS']
        for inner in inners:
            r = run(name, inner, repo=ctx.repo)
            updates(ctx, r, name)


def updates(ctx, r, name):
    it = Iter(r)
    e = it.eng
    w = f'{MIN} ({label(name)})'
    ctx.count('schemes')
    acc = acceptance(it)
    end = it.end.pc
    ups = [ev for ev in r.events if ev.kind == 'scheme.update'
           and ev.data['recv'] is r.scheme]
    out = [ev for ev in ups if it.L.id not in ev.loops]
    ctx.ob('schemes are updated in iterations only', w, not out,
           [where(e, ev) for ev in out])
    ups = [ev for ev in ups if ev not in out]
    ctx.ob('the scheme is updated', w, bool(ups), 'no call of update()')
    ctx.count('update calls', len(ups))
    done = disj(*[ev.pc for ev in ups])
    ctx.ob('each accepted step updates the scheme', w,
           not sat(acc & end & ~done), showb(acc & end & ~done, 4)[:900])
    for i, ev in enumerate(ups):
        wv = f'{w}: {where(e, ev)}'
        ctx.ob('only accepted steps update the scheme', wv,
               not sat(ev.pc & end & ~acc),
               f'updated if {showb(ev.pc & ~acc, 4)[:900]}')
        ctx.ob('the scheme is updated once per accepted step', wv,
               ev.loops == (it.L.id,) and not any(
                   sat(ev.pc & o.pc) for o in ups[:i]), '')
    # data
    fe = trial(it)
    F, G, Hn, rn, Jn = it.ev_model(fe)
    _, _, _, r0, J0 = it.ev_model(it.init_evals[0]) if it.init_evals else (
        [None] * 5)
    p = it.sp
    s = add(p('s'), p('s0'))
    y = sub(G, it.h('grad'))
    for ev in ups:
        c = ev.data['contents']
        wv = f'{w}: {where(e, ev)}'
        pc = ev.pc & acc

        def same(k, t, what):
            ctx.count('arguments compared')
            ctx.ob(f'update gets {what}', f'{wv} {k}', equal(c[k], t, pc),
                   equal_cex(c[k], t, pc))

        heads = {}
        for k, t in c.items():
            if k in ('rprev', 'yb', 'gamma'):
                for x in subterms(t):
                    if x.op == 'mu':
                        heads.setdefault(x, k)
        if name in H.RESFUN:
            prev = {}
            bad = []
            for x in heads:
                if x is it.h('grad') or x is it.h('x'):
                    continue
                rk = rank(x)
                err = carried(it, x, r0 if rk == 1 else J0,
                              rn if rk == 1 else Jn, acc)
                if err:
                    bad.append(err)
                prev.setdefault(rk, x)
            ctx.ob('previous residuals are those of the current solution',
                   wv, not bad, '\n'.join(bad)[:1500])
            ctx.count('carried values', len(heads))
            need1 = name in ('FX', 'TSSM', 'GNSBFGS')
            ctx.ob('previous residuals and their derivatives are used', wv,
                   (2 in prev) and (1 in prev or not need1),
                   [show(x, 2) for x in heads])
            if 2 not in prev or need1 and 1 not in prev:
                continue
            jp, rp = prev[2], prev.get(1)
            sd = spec_it(it, 'return (jn - jp).T.dot(rn)', jn=Jn, jp=jp,
                         rn=rn)
        for k in c:
            if k in ('s', 'delta'):
                same(k, s, 'the displacement between the iterates')
            elif k == 'y':
                same(k, y, 'the difference of gradients')
            elif k == 'hess':
                same(k, Hn, 'the Hessian at the new point')
            elif k == 'r':
                same(k, rn, 'the residual at the new point')
            elif k == 'rprev':
                same(k, rp, 'the residual at the previous point')
            elif k == 'gamma':
                same(k, spec_it(it, 'return H.dot(s) + sd', H=Hn, s=s,
                                sd=sd), 'gamma')
            elif k == 'yb':
                t = sd
                if name in ('TSSM', 'GNSBFGS'):
                    t = spec_it(it, 'return sd * (norm(rn) / norm(rp))',
                                sd=sd, rn=rn, rp=rp)
                same(k, t, 'the structured difference')
            elif k == 'iterations':
                counter(ctx, it, c[k], wv, 'iterations', TRUE, FALSE)
            elif k == 'tr_nonupdates':
                rat = it.e('tr_ratio')
                g = tob(bt(lt_cases(opt(r, 'mu'), rat))) & tob(
                    bt(lt_cases(rat, opt(r, 'eta')))) & isfinite(F)
                counter(ctx, it, c[k], wv,
                        'iterations with ratio between mu and eta', g, FALSE)
            elif k == 'iter_since_tr_update':
                g, _ = changed(it, 'delta')
                counter(ctx, it, c[k], wv,
                        'iterations since the last radius change', TRUE, g)
            else:
                raise AnalysisError(f'unknown argument {k} of update()')
    # the matrix used afterwards
    m = scheme_matrix(it, it.end)
    ctx.ob('iterations use the updated matrix', w, equal(
        it.e('hess'), m, acc & end), equal_cex(it.e('hess'), m, acc & end))


def lt_cases(a, b):
    r = FALSE
    for g, x in pairs(a):
        for h, y in pairs(b):
            r = r | (g & h & lt(x, y))
    return r


def counter(ctx, it, t, w, what, inc, zero):
    """t counts the iterations in which inc holds since the last one in
    which zero holds."""
    syms = head_symbols(it)
    xs = sorted({x for x in subterms(t) if x in syms and
                 x.op == 'mu' and rank(x) in (0, None)},
                key=lambda x: x.id)
    ctx.count('counters')
    e = it.eng
    for x in xs:
        p = syms[x]
        v0 = e.content(e.path_entry(it.L.entry, p), it.L.entry)
        if numval(v0) != 0:
            continue
        v1 = path_end(it, p)
        want = mkcases([(zero, ZERO), (~zero & inc, add(x, ONE)),
                        (~zero & ~inc, x)])
        if equal(v1, want, it.end.pc):
            ctx.ob(f'update gets the number of {what}', w,
                   equal(t, v1, it.end.pc & acceptance(it)),
                   equal_cex(t, v1, it.end.pc & acceptance(it)))
            return
    ctx.ob(f'update gets the number of {what}', w, False,
           f'{show(t, 4)[:500]}: no counter that starts with 0 and is '
           f'updated accordingly: ' + '; '.join(
               f'{path_name(syms[x])} = {show(path_end(it, syms[x]), 4)[:300]}'
               for x in xs))
