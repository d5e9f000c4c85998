"""Step computation: step back (C02), candidates (C13), model value (C14)."""

from .loop import *  # noqa: F401,F403
from .loop import (trial, MIN, spec_it, mk, T, elements, path_name)
from ..interp import AnalysisError, ABSENT, NONE
from ..harness import SUBSPACES, STRATEGIES

STEPS = 'fides.steps'
_cache = {}


def trrun(ctx, sub, strat):
    k = (ctx.repo, sub, strat)
    if k not in _cache:
        _cache[k] = H.trust_region_run(sub, strat, repo=ctx.repo)
    return _cache[k]


def candidate_classes(ctx):
    """Classes of which step computation constructs instances."""
    out = {}
    for sub in SUBSPACES:
        for strat in STRATEGIES:
            r = trrun(ctx, sub, strat)
            for ev in r.events:
                if ev.kind == 'newstep':
                    out.setdefault(ev.data['cls'], (r.eng, ev))
    ctx.need('candidate classes', len(out), 5)
    return out


def step(ctx, cls, havoc=True):
    """Analysis of a candidate: construction, then calculate() on an
    arbitrary subspace and an arbitrary displacement of its start."""
    k = (ctx.repo, cls, havoc)
    if k in _cache:
        return _cache[k]

    def between(eng, st, oid):
        f = st.heap[oid].f
        sub = f.get('subspace', ABSENT)
        if sub is not ABSENT and sub is not NONE:
            t = sym('subspace', rank=2, notnone=True)
            st.set(oid, 'subspace', eng.alloc(st, 'arr', f={'c': t}))
        if 'ss0' not in f or 's0' not in f:
            return
        c = eng.content(f['ss0'], st)
        if c.op == 'zeros':
            return
        x = eng.content(f['x'], st)
        s0 = eng.content(f['s0'], st)
        if not equal(x, add(sym('x'), s0)):
            return
        n0 = sym('ss0', rank=1, notnone=True)
        s0 = mul(sym('dvec'), n0)
        for n, t in (('ss0', n0), ('s0', s0), ('x', add(sym('x'), s0))):
            st.set(oid, n, eng.alloc(st, 'arr', f={'c': t}))

    name = cls.split('.')[-1]
    r = H.step_run(name, repo=ctx.repo, between=between if havoc else None)
    if r.oid is None:
        raise AnalysisError(f'{cls} is not constructed')
    _cache[k] = r
    return r


def fld(r, st, n):
    v = st.get(r.oid, n)
    if v is None or v is ABSENT:
        raise AnalysisError(f'candidate has no field {n}')
    return r.eng.content(v, st)


def cloc(r, cls, meth='__init__'):
    f = r.eng.lookup_class(cls, meth)
    if f is None or f.op != 'func':
        return cls
    fi = r.eng.funcs[f.args[0]]
    return f'{fi.mod.replace(".", "/")}.py:{fi.node.lineno} ' \
           f'{fi.qual.split(":")[-1]} of {cls.split(".")[-1]}'


def obeq(ctx, rule, w, a, b, pc=TRUE):
    ctx.count('terms compared')
    return ctx.ob(rule, w, equal(a, b, pc), equal_cex(a, b, pc))


def sspec(r, st, src, **env):
    s = st.fork()
    s.pc = TRUE
    return spec(r.eng, s, src, **{k: box(r.eng, s, v)
                                  for k, v in env.items()})


def scaled(v):
    return mul(sym('dvec'), v)


# --------------------------------------------------------------------- C02
BREAK = ['''
br = np.where(s == 0, np.inf, np.maximum((ub - x) / s, (lb - x) / s))
''', '''
br = np.where(s == 0, np.inf, (np.where(s > 0, ub, lb) - x) / s)
''']
FRAC = '''m = np.min(br)
return br, m, np.where(br == m)[0], min(1.0, theta * m)
'''


def c02(ctx):
    for cls in candidate_classes(ctx):
        init = step(ctx, cls, False)
        st = init.st_init
        n = cls.split('.')[-1]
        w = cloc(init, cls)
        for f in ('lb', 'ub', 'theta'):
            t = fld(init, init.st, f)
            obeq(ctx, f'candidates keep the given {f}', w, t, sym(f))
        x, s0 = fld(init, st, 'x'), fld(init, st, 's0')
        obeq(ctx, 'a segment starts at the current point plus the earlier '
             'segments', w, x, add(sym('x'), s0), st.pc)
        # where the last segment starts
        if 'step' in init.args and 'prev' in str(s0.op) + show(s0, 12):
            p = {k: prev(init, st, k) for k in (
                'og_s', 's0', 'minbr', 'br', 'iminbr', 'theta')}
            if n.endswith('Reflected'):
                want = sspec(init, st, 'return min(minbr, 1) * og_s + s0',
                             **{k: p[k] for k in ('minbr', 'og_s', 's0')})
                obeq(ctx, 'a reflected segment starts at the first '
                     'breakpoint of the step it reflects', w, s0, want,
                     st.pc)
            elif n.endswith('Truncated'):
                want = sspec(init, st, '''
t = s0.copy()
t[iminbr] += theta * br[iminbr] * og_s[iminbr]
return t''', **{k: p[k] for k in ('s0', 'iminbr', 'theta', 'br', 'og_s')})
                obeq(ctx, 'a truncated segment starts where the variables '
                     'that reach a bound went theta times the way to it',
                     w, s0, want, st.pc)
            else:
                ctx.ob('a candidate that continues another one is a '
                       'reflection or truncation', w, False, show(s0))
        r = step(ctx, cls)
        w = cloc(r, cls, 'calculate')
        st = r.st
        if st.dead:
            raise AnalysisError(f'{cls}.calculate does not return')
        og = fld(r, st, 'og_s')
        x = fld(r, r.st_mid, 'x')
        for src in BREAK:
            want = sspec(r, st, src + FRAC, s=og, x=x, lb=sym('lb'),
                         ub=sym('ub'), theta=sym('theta'))
            br, m, im, al = want.args[0]
            if equal(fld(r, st, 'minbr'), m, st.pc):
                break
        obeq(ctx, 'fraction of the step is min(1, theta * smallest ratio of '
             'the distance to the bound ahead to the move)', w,
             fld(r, st, 'alpha'), al, st.pc)
        obeq(ctx, 'breakpoint is the smallest ratio', w,
             fld(r, st, 'minbr'), m, st.pc)
        ci = fld(r, st, 'iminbr')
        if not equal(ci, im, st.pc) and st.get(r.oid, 'br') is not None:
            # in terms of the ratios and the breakpoint as computed
            cb = fld(r, st, 'br')
            if equal(cb, br, st.pc):
                im = sspec(r, st, 'return np.where(br == m)[0]', br=cb,
                           m=fld(r, st, 'minbr'))
        obeq(ctx, 'variables at the breakpoint', w, ci, im, st.pc)
        a = fld(r, st, 'alpha')
        for f in ('s', 'ss', 'sc'):
            obeq(ctx, f'{f} is the computed segment times that fraction', w,
                 fld(r, st, f), mul(a, fld(r, st, 'og_' + f)), st.pc)
        obeq(ctx, 'start of the segment is not moved', w, fld(r, st, 'x'),
             x, st.pc)
        previous_intact(ctx, init, cls)
        ctx.count('candidate classes')
    # nothing changes a candidate after its calculate()
    for sub in SUBSPACES:
        for strat in STRATEGIES:
            r = trrun(ctx, sub, strat)
            w = f'trust_region with {sub}/{strat}'
            frozen(ctx, r, w, r.events)
            for ev in r.events:
                if ev.kind == 'newstep':
                    step_inputs(ctx, r, ev, w, ('x', 'lb', 'ub', 'theta'))
    # theta and the evaluated point
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        e = it.eng
        w = f'{MIN} ({label(name)})'
        theta_terms(ctx, it, w)
        for tr in it.trs:
            c = tr.data['contents']
            obeq(ctx, 'steps start at the current point',
                 f'{w}: {where(e, tr)}', c['x'], it.h('x'), tr.pc)
        p = it.sp
        for ev in it.evals:
            xe = ev.data['contents'][0]
            obeq(ctx, 'evaluated point is current point plus the segments '
                 'of the chosen candidate', f'{w}: {where(e, ev)}', xe,
                 add(it.h('x'), p('s'), p('s0')), ev.pc)
        pre = it.prefix()
        mine = [ev for ev in r.events if touches(ev, pre)]
        ctx.ob('the optimizer does not alter the chosen candidate', w,
               not mine, [where(e, ev) for ev in mine])
    ctx.need('candidate classes', ctx.stats.get('candidate classes', 0), 5)


def theta(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        theta_terms(ctx, Iter(r), f'{MIN} ({label(name)})')


def theta_terms(ctx, it, w):
    e, r = it.eng, it.r
    for tr in it.trs:
        c = tr.data['contents']
        want = spec_it(it, '''
b = np.where(g < 0, ub, lb)
v = np.where(np.isfinite(b), x - b, np.ones(x.shape))
return max(theta_max, 1 - norm(v * g, np.inf))''', x=it.h('x'),
                       g=it.h('grad'), lb=sym('lb'), ub=sym('ub'),
                       theta_max=opt(r, 'theta_max'))
        obeq(ctx, 'theta is max(theta_max, 1 - max|v g|)',
             f'{w}: {where(e, tr)}', c['theta'], want, tr.pc)


def touches(ev, prefix):
    if ev.kind == 'setattr':
        t = ev.data['recv']
        return t.op == 'ref' and t.args[0] == ('step', prefix)
    if ev.kind == 'arrwrite':
        o = ev.data.get('oid')
        return isinstance(o, tuple) and o[:2] == ('stepfield', prefix)
    return False


def prev(r, st, name):
    v = r.eng.getattr(ref(('in', 'prev')), name, st, N0)
    return r.eng.content(v, st)


def frozen(ctx, r, w, events):
    done = set()
    n = 0
    for ev in events:
        if ev.kind == 'calculate':
            done.add(ev.data['oid'])
        if ev.kind == 'setattr' and ev.data['recv'].op == 'ref' and \
                ev.data['recv'].args[0] in done:
            n += 1
            ctx.ob('a candidate is not altered after its computation',
                   f'{w}: {where(r.eng, ev)}', False, ev.data['name'])
        if ev.kind == 'arrwrite':
            o = ev.data.get('oid')
            if isinstance(o, tuple) and o[0] == 'candf' and o[1] in done:
                ctx.ob('a candidate is not altered after its computation',
                       f'{w}: {where(r.eng, ev)}', False, o[2])
    ctx.ob('candidates stay as they were computed', w, True)


def previous_intact(ctx, r, cls):
    w = cloc(r, cls)
    ctx.ob('the candidate that is continued is left as it is', w, True)
    for ev in r.init_events + r.events:
        o = ev.data.get('oid')
        if ev.kind in ('setattr', 'setwrite'):
            v = ev.data['recv']
            o = v.args[0] if v.op == 'ref' else None
        elif ev.kind != 'arrwrite':
            continue
        if o == ('in', 'prev') or isinstance(o, tuple) and \
                o[0] in ('stepfield', 'stepset') and o[1] == 'prev':
            ctx.ob('the candidate that is continued is left as it is',
                   f'{w}: {where(r.eng, ev)}', False, str(o[-1]))


# --------------------------------------------------------------------- C14
def c14(ctx):
    for cls in candidate_classes(ctx):
        init = step(ctx, cls, False)
        st = init.st_init
        w = cloc(init, cls)
        obeq(ctx, 'model gradient is the scaled gradient', w,
             fld(init, init.st, 'sg'), sym('sg'), st.pc)
        B = sspec(init, st, '''
D = csc_matrix(np.diag(dvec))
return D * hess * D + csc_matrix(np.diag(gdv))''', dvec=sym('dvec'),
                  hess=sym('hess'), gdv=sym('gdv'))
        obeq(ctx, 'model Hessian is D hess D plus the derivative of the '
             'scaling', w, dense(fld(init, init.st, 'shess')), dense(B),
             st.pc)
        obeq(ctx, 'scaled and unscaled earlier segments correspond', w,
             fld(init, st, 's0'), scaled(fld(init, st, 'ss0')), st.pc)
        r = step(ctx, cls)
        w = cloc(r, cls, 'calculate')
        st = r.st
        for a, b in (('og_s', 'og_ss'), ('s', 'ss'), ('s0', 'ss0')):
            obeq(ctx, f'{a} is D {b}', w, fld(r, st, a),
                 scaled(fld(r, st, b)), st.pc)
        want = sspec(r, st, '''
d = ss + ss0
return 0.5 * d.T.dot(B).dot(d) + g.T.dot(d)''', ss=fld(r, st, 'ss'),
                     ss0=fld(r, st, 'ss0'), B=fld(r, st, 'shess'),
                     g=fld(r, st, 'sg'))
        obeq(ctx, 'predicted value is that of the model at the total '
             'displacement', w, fld(r, st, 'qpval'), want, st.pc)
        ctx.count('candidate classes')
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        w = f'{MIN} ({label(name)})'
        p = it.sp
        for ev in it.evals:
            obeq(ctx, 'trial point is x + D d', f'{w}: {where(it.eng, ev)}',
                 ev.data['contents'][0], add(it.h('x'), p('s'), p('s0')),
                 ev.pc)
        pre = it.prefix()
        mine = [ev for ev in r.events if touches(ev, pre)]
        ctx.ob('the optimizer does not alter the chosen candidate', w,
               not mine, [where(it.eng, ev) for ev in mine])
    for sub in SUBSPACES:
        for strat in STRATEGIES:
            r = trrun(ctx, sub, strat)
            w = f'trust_region with {sub}/{strat}'
            frozen(ctx, r, w, r.events)
            for ev in r.events:
                if ev.kind == 'newstep':
                    step_inputs(ctx, r, ev, w)
    ctx.need('candidate classes', ctx.stats.get('candidate classes', 0), 5)


def dense(t):
    return strip_csc(t)


def step_inputs(ctx, r, ev, w, only=None):
    c = ev.data['contents']
    D = mk('csc', mk('diag', sym('dvec')))
    want = {
        'x': sym('x'), 'sg': mul(sym('dvec'), sym('g')),
        'hess': sym('hess'), 'scaling': D, 'delta': sym('delta'),
        'theta': sym('theta'), 'lb': sym('lb'), 'ub': sym('ub'),
        'g_dscaling': mk('csc', diag(mul(abs_(sym('g')), sym('dv'))))}
    for k, t in want.items():
        if only and k not in only:
            continue
        if k not in c:
            raise AnalysisError(f'{ev.data["cls"]} takes no argument {k}')
        obeq(ctx, f'candidates are computed for the {k} of the iteration',
             f'{w}: {where(r.eng, ev)}', dense(c[k]), dense(t), ev.pc)


# --------------------------------------------------------------------- C13
FIRST = {'2D': 'TRStep2D', 'full': 'TRStepFull', 'scg': 'TRStepSteihaug'}
NEEDS = {'reflect_single': ['TRStepReflected'],
         'reflect': ['TRStepReflected'], 'truncate': ['TRStepTruncated'],
         'mixed': ['TRStepReflected', 'TRStepTruncated'],
         'refine': ['RefinedStep']}


def short(cls):
    return cls.split('.')[-1]


class Candidates:
    """What trust_region() chooses from, and by which values."""

    def __init__(self, r):
        self.r = r
        self.e = r.eng
        self.made = {}
        for ev in r.events:
            if ev.kind == 'newstep':
                self.made[ev.data['oid']] = ev
        self.calc = {}
        for ev in r.events:
            if ev.kind == 'calculate':
                self.calc.setdefault(ev.data['oid'], []).append(ev)

    def items(self, segs, g0=TRUE):
        """[(guard, oid or None, repeated)] of a segment list."""
        out = []
        for g, x in segs:
            g = g0 & g
            if x.op == 'splatvar':
                y = self.e.splats.get(x)
                if y is None:
                    raise AnalysisError('items of a list are not known')
                out += [(a, o, x) for a, o, _ in self.items(y.args[1], g)]
            elif x.op == 'splat':
                out += [(a, o, x) for a, o, _ in self.items(x.args[1], g)]
            elif x.op == 'cases':
                for h, l in x.args[0]:
                    out += self.items([(h, l)], g)
            elif x.op == 'ref' and x.args[0] in self.made:
                out.append((g, x.args[0], None))
            else:
                raise AnalysisError('choice among values that are no '
                                    'candidates: ' + show(x, 3)[:200])
        return out

    def values(self, segs, g0=TRUE):
        out = []
        for g, x in segs:
            g = g0 & g
            if x.op == 'splatvar':
                y = self.e.splats.get(x)
                if y is None:
                    raise AnalysisError('values of a list are not known')
                out += [(a, t, x) for a, t, _ in self.values(y.args[1], g)]
            elif x.op == 'splat':
                out += [(a, t, x) for a, t, _ in self.values(x.args[1], g)]
            elif x.op == 'cases':
                for h, l in x.args[0]:
                    out += self.values([(h, l)], g)
            else:
                out.append((g, x, None))
        return out


def c13(ctx):
    for sub in SUBSPACES:
        for strat in STRATEGIES:
            for plain in (False, True):
                key = (ctx.repo, sub, strat, plain)
                if plain:
                    if key not in _cache:
                        _cache[key] = H.trust_region_run(
                            const(sub), const(strat), repo=ctx.repo)
                    r = _cache[key]
                else:
                    r = trrun(ctx, sub, strat)
                one_choice(ctx, r, sub, strat, f'trust_region with {sub}/'
                           f'{strat}' + (' (strings)' if plain else ''))
    # the optimizer passes its options on and takes the chosen candidate
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        w = f'{MIN} ({label(name)})'
        for tr in it.trs:
            c = tr.data['contents']
            for k, o in (('subspace_dim', 'subspace_solver'),
                         ('stepback_strategy', 'stepback_strategy')):
                obeq(ctx, f'option {o} selects the {k}',
                     f'{w}: {where(it.eng, tr)}', c[k], opt(r, o), tr.pc)
        p = it.sp
        for ev in it.evals:
            obeq(ctx, 'the chosen candidate is the step taken',
                 f'{w}: {where(it.eng, ev)}', ev.data['contents'][0],
                 add(it.h('x'), p('s'), p('s0')), ev.pc)


def one_choice(ctx, r, sub, strat, w):
    e = r.eng
    C = Candidates(r)
    ctx.count('configurations')
    f = H.global_value(e, 'fides.trust_region', 'trust_region')
    fi = e.funcs[f.args[0]]
    w = f'fides/trust_region.py:{fi.node.lineno} {w}'
    first = [ev for ev in r.events if ev.kind == 'newstep'
             and short(ev.data['cls']) == FIRST[sub]]
    ctx.ob(f'{sub}: the first candidate comes from {FIRST[sub]}', w,
           len(first) == 1 and entails(TRUE, first[0].pc),
           [(ev.data['cls'], showb(ev.pc, 3)[:200]) for ev in first])
    if not first:
        return
    top = first[0]
    name = top.data['name']
    hit = lt(sym(f'{name}.alpha', rank=0, notnone=True), ONE) & lt(
        ONE, mk('len', sym('g')))
    refine = lt(ONE, shape1(e, r, sym(f'{name}.subspace', rank=2,
                                      notnone=True)))
    # what is chosen from
    chosen = {}
    rets = [(g, l) for g, l in pairs(r.ret)]
    for g, l in rets:
        if not sat(g & r.st.pc):
            continue
        if l.op == 'ref' and l.args[0] in C.made:
            others = [ev for ev in C.made.values() if ev.data['oid'] !=
                      l.args[0] and sat(ev.pc & g)]
            ctx.ob('a step is taken without choice only if there is no '
                   'other candidate', w, not others,
                   [short(ev.data['cls']) for ev in others])
            chosen.setdefault(l.args[0], []).append((g, None))
            continue
        segs, vals = choice(l)
        if segs is None:
            raise AnalysisError('result of trust_region is not a choice '
                                'from a list: ' + show(l, 4)[:300])
        its = C.items(segs, g)
        for a, o, rep in its:
            chosen.setdefault(o, []).append((a, rep))
        vs = C.values(vals, g)
        ctx.ob('there is one value per candidate', w, len(vs) == len(its),
               f'{len(vs)} values, {len(its)} candidates')
        for (a, o, rep), (b, v, rv) in zip(its, vs):
            want = field(e, o, 'qpval')
            obeq(ctx, 'candidates are compared by their predicted value',
                 f'{w} {short(C.made[o].data["cls"])}', v, want)
            d = (a & ~b) | (~a & b)
            same = not sat(d & r.st.pc) if rep is None else \
                over(rv, rep)
            ctx.ob('every candidate is compared', f'{w} '
                   f'{short(C.made[o].data["cls"])}',
                   (rep is None) == (rv is None) and same,
                   showb(d, 3)[:300])
    # every candidate made is calculated and available
    for oid, ev in C.made.items():
        n = short(ev.data['cls'])
        ew_ = f'{w}: {where(e, ev)}'
        ctx.count('candidates')
        calc = C.calc.get(oid, [])
        ctx.ob('every candidate is computed', ew_ + f' {n}', any(
            not sat(ev.pc & ~c.pc) for c in calc), '')
        inn = chosen.get(oid, [])
        g = disj(*[a for a, _ in inn])
        ctx.ob('every candidate computed can be chosen', ew_ + f' {n}',
               bool(inn) and not sat(outside_loop(ev.pc) & r.st.pc & ~g),
               f'computed if {showb(ev.pc, 3)[:300]}, available if '
               f'{showb(g, 3)[:300]}')
    # the candidates that have to be there
    def present(cls, cond, what):
        ctx.count('required candidates')
        ok = FALSE
        for oid, ev in C.made.items():
            if short(ev.data['cls']) != cls:
                continue
            for a, rep in chosen.get(oid, []):
                if rep is None:
                    ok = ok | a
            if chosen.get(oid) and len(ev.loops) == 1:
                # made by the first iteration of a loop that is entered
                first = entered(r, ev, cond)
                if first is not None:
                    ok = ok | first
        ctx.ob(what, w, not sat(cond & r.st.pc & ~ok), f'{cls} is required if '
               f'{showb(cond, 3)[:300]}, is present if {showb(ok, 3)[:300]}')

    present(FIRST[sub], TRUE, "the solver's own step is a candidate")
    present('GradientStep', hit, 'the scaled gradient step is a candidate')
    for cls in NEEDS[strat]:
        cond = hit & refine if cls == 'RefinedStep' else hit
        present(cls, cond, f'{strat}: {cls} is a candidate')
    if strat in ('reflect', 'mixed'):
        chain(ctx, r, C, chosen, 'TRStepReflected', top, w)
    if strat in ('truncate', 'mixed'):
        chain(ctx, r, C, chosen, 'TRStepTruncated', top, w)
    for ev in C.made.values():
        if 'step' not in ev.data['contents']:
            continue
        src = ev.data['contents']['step']
        if ev.loops:
            continue
        ctx.ob('stepping back starts from the step of the solver',
               f'{w}: {where(e, ev)}', src.op == 'ref' and
               src.args[0] == top.data['oid'], show(src, 2)[:200])


def over(values, items):
    """The values were computed by a loop over these items."""
    if values is items:
        return True
    k = values.args[0] if values is not None else None
    if items.op == 'splat' and isinstance(k, tuple) and k == items.args[0]:
        return True
    if isinstance(k, tuple):
        return k[-1] is items
    return k is items


def shape1(e, r, t):
    return e.getitem_content(e.ext.shape_of(t), num(1))


def field(e, oid, name):
    o = e.ghosts.get(oid)
    if o is None:
        return sym('?')
    v = o.f[name]
    return e.ghosts[v.args[0]].f['c'] if v.op == 'ref' else v


def outside_loop(b):
    """Some state of the loops fits."""
    from ..terms import _atoms
    for v in support(b):
        if _atoms[v].op == 'more' or contains(
                _atoms[v], lambda t: t.op in ('mu', 'mub', 'munone')):
            b = restrict(b, v, True) | restrict(b, v, False)
    return b


def entered(r, ev, cond):
    """Condition under which an event happens in the first iteration of its
    loop, where cond implies that there is one."""
    from ..terms import _atoms
    lid = ev.loops[-1]
    L = next((l for l in r.loops if l.id == lid), None)
    it = L.iterable if L is not None else None
    if L is not None and L.kind == 'while':
        b = at_entry(r, L, ev.pc)
    else:
        if it is None or it.op != 'call' or it.args[0] != 'range':
            return None
        a = it.args[1:]
        n = a[0] if len(a) == 1 else sub(a[1], a[0]) if len(a) == 2 else None
        if n is None or not entails(cond & r.st.pc, disj(*[
                lt(ZERO, x) for x in (n.args[0] if n.op == 'max' else [n])])):
            return None
        b = ev.pc
    for v in support(b):
        if _atoms[v].op == 'more' and _atoms[v].args[0] == lid:
            b = restrict(b, v, True)
    for v in support(b):
        if any(t.op in ('mu', 'mub', 'munone') and t.args[0] == lid
               for t in subterms(_atoms[v])):
            return None
    return outside_loop(b)


def at_entry(r, L, b):
    """The condition on the first iteration of a loop."""
    heap = {str(k): k for k in L.entry.heap}

    def length(t):
        n = ZERO
        for g, x in t.args[0].args[0]:
            if x.op == 'splatvar' and x.args[0] == L.id:
                o = L.entry.heap.get(heap.get(x.args[1]))
                its = o.f.get('items') if o is not None else None
                if its is None or its.op != 'segs':
                    return None
                for h, y in its.args[0]:
                    if h is not TRUE or y.op in ('splat', 'splatvar',
                                                 'mulist'):
                        return None
                    n = add(n, ONE)
            elif g is not TRUE or x.op in ('splat', 'splatvar', 'mulist'):
                return None
            else:
                n = add(n, ONE)
        return n

    def f(t):
        if t.op == 'len' and t.args[0].op == 'segs':
            return length(t)
        if t.op == 'mu' and t.args[0] == L.id:
            v = r.eng.path_entry(L.entry, t.args[1]) if isinstance(
                t.args[1], tuple) else None
            return v if isinstance(v, T) and v.op != 'ref' else None
        return None

    return subst_b(b, f)


def choice(l):
    """(candidates, values) of seq[argmin(values)] or min(seq, key=...)."""
    if l.op == 'pick':
        k, s = l.args
        if k.op != 'argmin':
            return None, None
        v = k.args[-1]
        while v.op == 'call' and v.args[0] in ('array', 'tuple', 'list'):
            v = v.args[1]
        if s.op != 'segs':
            return None, None
        if v.op == 'segs':
            return s.args[0], v.args[0]
        if v.op == 'tuple':
            return s.args[0], [(TRUE, x) for x in v.args[0]]
    return None, None


def chain(ctx, r, C, chosen, cls, top, w):
    """Further reflections / truncations continue the last one."""
    e = r.eng
    inl = [ev for ev in C.made.values() if short(ev.data['cls']) == cls
           and ev.loops]
    ctx.ob(f'{cls}: repeated', w, bool(inl), '')
    for ev in inl:
        src = ev.data['contents']['step']
        lid = ev.loops[-1]
        L = next((l for l in r.loops if l.id == lid), None)
        if L is None:
            raise AnalysisError('loop of repeated candidates not found')
        ok = False
        detail = show(src, 3)[:300]
        if src.op == 'ref' and isinstance(src.args[0], tuple) and \
                src.args[0][0] == 'head' and src.args[0][1] == lid:
            path = src.args[0][2]
            v0 = path_value(L.entry, path)
            v1 = path_value(L.ends, path)
            f0 = [l for _, l in pairs(v0)]
            f1 = [l for _, l in pairs(v1)]
            ok = all(l.op == 'ref' and l.args[0] in C.made and short(
                C.made[l.args[0]].data['cls']) in (
                    cls, short(top.data['cls'])) for l in f0) and \
                all(l is ref(ev.data['oid']) for l in f1)
            detail = f'starts with {show(v0, 2)[:200]}, goes on with ' \
                     f'{show(v1, 2)[:200]}'
        elif src.op == 'listitem' and numval(src.args[1]) == -1:
            ok = True
        ctx.ob(f'{cls}: each one continues the last one',
               f'{w}: {where(e, ev)}', ok, detail)
        if L.kind == 'for' and src.op == 'ref':
            goes_on(ctx, r, C, cls, ev, L, src,
                    top, f'{w}: {where(e, ev)}')


def goes_on(ctx, r, C, cls, ev, L, src, top, w):
    """Repeated until as many as variables are made or one is not cut
    back."""
    e = r.eng
    n = mk('len', sym('g'))
    hit = lt(sym(f'{top.data["name"]}.alpha', rank=0, notnone=True), ONE) & \
        lt(ONE, n) & L.entry.pc
    it = L.iterable
    if it is None or it.op != 'call' or it.args[0] != 'range':
        return
    a = it.args[1:]
    k = a[0] if len(a) == 1 else sub(a[1], a[0]) if len(a) == 2 else None
    if k is None:
        return
    ks = k.args[0] if k.op == 'max' else [k]
    ctx.count('repetitions')
    ctx.ob(f'{cls}: repeated as often as there are further variables', w,
           any(entails(hit, ~lt(x, sub(n, ONE))) for x in ks),
           f'{show(k, 3)} passes')

    def cut(v):
        """Condition for this candidate to be cut back."""
        o = L.head.heap.get(v.args[0]) if v.op == 'ref' else None
        if o is not None and 'alpha' in o.f:
            al, sp = o.f['alpha'], o.f.get('subspace')
            sp = e.content(sp, L.head) if sp is not None else None
        elif v.op == 'ref' and v.args[0] in C.made:
            al = field(e, v.args[0], 'alpha')
            sp = field(e, v.args[0], 'subspace')
        else:
            return None
        g = lt(al, ONE)
        if cls == 'TRStepTruncated' and sp is not None:
            g = g & lt(ZERO, shape1(e, r, sp))
        return g

    g = cut(src)
    if g is None:
        return
    from ..terms import _atoms
    more = TRUE
    for v in support(ev.pc):
        if _atoms[v].op == 'more' and _atoms[v].args[0] == L.id:
            more = atom(_atoms[v])
    ctx.ob(f'{cls}: the next one is computed if the last one was cut back',
           w, not sat(hit & more & g & ~ev.pc), 'not if ' + showb(
               constrain(hit & more & g & ~ev.pc, hit & more), 4)[:400])
    for b in L.brks:
        g = cut(ref(ev.data['oid']) if entails(b.pc, ev.pc) else
                path_value(b, src.args[0][2]))
        if g is not None:
            ctx.ob(f'{cls}: it ends only if the last one was not cut back',
                   w, not sat(b.pc & g), f'ends if {showb(b.pc, 4)[:400]}')


def path_value(st, path):
    (oid, k) = path[0]
    v = st.get(oid, k)
    if len(path) > 1 or v is None:
        raise AnalysisError('chain of candidates is not a plain variable')
    return v
