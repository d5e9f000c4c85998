"""Validation of options (C23) and of other input (C25)."""

from .state import *  # noqa: F401,F403
from .state import (trial, acceptance, MIN, spec_it, mk, T, HES)
from ..interp import AnalysisError, ABSENT, NONE, Engine
from ..harness import N0

# --------------------------------------------------------------------- C23
# what isinstance() says about values of a kind
NUM = ('Number', 'Complex', 'object')
KINDS = {
    'int': ('int', 'Integral', 'Rational', 'Real') + NUM,
    'numpy.int64': ('int64', 'signedinteger', 'integer', 'Integral',
                    'Rational', 'Real', 'number', 'generic') + NUM,
    'float': ('float', 'Real') + NUM,
    'numpy.float32': ('float32', 'floating', 'inexact', 'Real', 'number',
                      'generic') + NUM,
    'numpy.float64': ('float64', 'float', 'floating', 'inexact', 'Real',
                      'number', 'generic') + NUM,
    'complex': ('complex',) + NUM,
    'str': ('str', 'Sequence', 'Iterable', 'Collection', 'Container',
            'Hashable', 'object'),
    'bytes': ('bytes', 'Sequence', 'Iterable', 'object'),
    'list': ('list', 'Sequence', 'Iterable', 'object'),
    'dict': ('dict', 'Mapping', 'Iterable', 'object'),
    'ndarray': ('ndarray', 'Iterable', 'object'),
    'PosixPath': ('PosixPath', 'Path', 'PurePosixPath', 'PurePath',
                  'PathLike', 'object'),
    'WindowsPath': ('WindowsPath', 'Path', 'PureWindowsPath', 'PurePath',
                    'PathLike', 'object'),
    'None': None,
}
REALS = ['int', 'numpy.int64', 'float', 'numpy.float32', 'numpy.float64']
INTS = ['int', 'numpy.int64']
NUMERIC = ['maxtime', 'fatol', 'frtol', 'xtol', 'gatol', 'grtol',
           'theta_max', 'delta_init', 'mu', 'eta', 'gamma1', 'gamma2']
ENUMS = {'subspace_solver': ('SubSpaceDim', H.SUBSPACES),
         'stepback_strategy': ('StepBackStrategy', H.STRATEGIES)}


def value(kind, n=''):
    if kind == 'None':
        return NONE
    return sym(f'a_{kind}{n}', rank=0, notnone=True, distinct=True,
               pytypes=KINDS[kind])


def construct(eng, items):
    """State after construction with these options, and its errors."""
    st = eng.base.fork()
    sym('fun', userfun=True, notnone=True, distinct=True)
    d = eng.alloc(st, 'dict')
    for k, v in items:
        eng.setitem(d, k, v, st, N0, quiet=True)
    kw = {'fun': sym('fun'), 'ub': H.arr(eng, st, 'ub', user=True),
          'lb': H.arr(eng, st, 'lb', user=True), 'options': d}
    eng.events, eng.loops = [], []
    eng.instantiate(H.OPT, [], kw, st, N0)
    errs = [ev for ev in eng.events if ev.kind in (
        'raise', 'implicit_raise') and not ev.data['handled']]
    return st, errs


def c23(ctx):
    eng = Engine(ctx.repo, config={})
    names = {k: (const(k), H.enum_member(eng, 'Options', k)) for k in
             NUMERIC + ['maxiter', 'history_file'] + list(ENUMS)}
    valid, invalid = [], []
    for k, ns in names.items():
        for how, key in zip(('string', 'member'), ns):
            for kind in KINDS:
                v = value(kind)
                w = f'option {k} given by {how}: {kind}'
                if k in ENUMS:
                    if kind == 'str':
                        want = ('ValueError',)
                    else:
                        want = ('ValueError', 'TypeError')
                elif k == 'maxiter':
                    if kind in INTS:
                        want = ()
                    elif kind in REALS:
                        want = 'integer'
                    else:
                        want = ('TypeError',)
                elif k == 'history_file':
                    want = () if kind in ('str', 'PosixPath', 'WindowsPath') \
                        else ('TypeError',)
                else:
                    want = () if kind in REALS else ('TypeError',)
                outcome(ctx, eng, [(key, v)], want, w, v)
                if want == ():
                    valid.append((w, key, v))
                elif want == 'integer' and how == 'member':
                    valid.append((w, key, v))
                elif kind in ('None', 'list', 'complex'):
                    invalid.append((w, key, v, want))
            if k in ENUMS:
                cls, members = ENUMS[k]
                for m in members:
                    for hv, v in (('string', const(m)),
                                  ('member', H.enum_member(eng, cls, m))):
                        w = f'option {k} given by {how}: {m} by {hv}'
                        outcome(ctx, eng, [(key, v)], (), w, v)
                        valid.append((w, key, v))
                other = [c for c in ENUMS.values() if c[0] != cls][0]
                for m in other[1]:
                    for v in (const(m), H.enum_member(eng, other[0], m)):
                        outcome(ctx, eng, [(key, v)], ('ValueError',),
                                f'option {k} given by {how}: {show(v)}', v)
    unknown = [('unknown name', const('no_such_option')),
               ('number', num(3)),
               ('name in capitals', const('MAXITER')), ('None', NONE)]
    for what, key in unknown:
        outcome(ctx, eng, [(key, num(1))], ('ValueError',), f'{what} as name '
                'of an option', num(1))
        invalid.append((f'{what} as name of an option', key, num(1),
                        ('ValueError',)))
    # an option does not hide what is wrong with another one
    seen = set()
    for w1, k1, v1 in valid:
        for w2, k2, v2, want in invalid:
            if plain(k1) is plain(k2) or k2.op == 'enum':
                continue
            if k1.op == 'enum' and v1.op == 'sym' and not (
                    plain(k1) is const('maxiter')):
                continue
            s = (plain(k1), v1, k2, v2)
            if s in seen:
                continue
            seen.add(s)
            for order in (0, 1):
                items = [(k1, v1), (k2, v2)]
                if order:
                    items.reverse()
                outcome(ctx, eng, items, want, f'{w2}, '
                        f'{"before" if order else "after"} {w1}', v2,
                        pair=True, given=atom(mk('call', 'is_integer', v1))
                        if v1.op == 'sym' else TRUE)
    st, errs = construct(eng, [])
    ctx.ob('no options are needed', 'no options', not st.dead and not errs,
           [e.data['exc'] for e in errs])


def outcome(ctx, eng, items, want, w, v, pair=False, given=TRUE):
    st, errs = construct(eng, items)
    ctx.count('pairs of options' if pair else 'options and kinds of values')
    if want == ():
        bad = [e for e in errs if sat(e.pc)]
        ctx.ob('valid options are accepted', w, not bad and not st.dead, [
            f'{e.data["exc"]} at {where(eng, e)}' for e in bad])
        return
    if want == 'integer':
        ok = atom(mk('call', 'is_integer', v))
        bad = [e for e in errs if sat(e.pc & ok)]
        ctx.ob('integer-valued numbers are accepted', w, not bad and
               sat(st.pc & ok), [
                   f'{e.data["exc"]} at {where(eng, e)}' for e in bad])
        ctx.ob('invalid options are rejected', w, not sat(st.pc & ~ok), '')
        bad = [e for e in errs if sat(e.pc) and
               e.data['exc'] != 'TypeError']
        ctx.ob('invalid options raise the documented error', w, not bad, [
            f'{e.data["exc"]} at {where(eng, e)}' for e in bad])
        return
    ctx.ob('invalid options are rejected', w, st.dead or not sat(st.pc),
           'the constructor returns')
    bad = [e for e in errs if sat(e.pc & given) and
           e.data['exc'] not in want]
    ctx.ob('invalid options raise the documented error', w, not bad, [
        f'{e.data["exc"]} at {where(eng, e)}' for e in bad])


# --------------------------------------------------------------------- C25
def implied(it, pc, forms):
    """One of the conditions (terms of truth) holds wherever pc holds."""
    # vectors have as many elements as entries
    vecs = []
    for a in batoms(pc):
        x = a.args[0] if a.op == 'eq0' else None
        if x is None:
            continue
        for t in subterms(x):
            if t.op == 'call' and t.args[0] == 'ndim' and not sat(
                    pc & ~eqn(t, ONE)):
                vecs.append(t.args[1])
    if vecs:
        def entries(t):
            if t.op == 'call' and t.args[0] == 'size' and t.args[1] in vecs:
                return mk('len', t.args[1])

        pc = subst_b(pc, entries)
    return any(not sat(pc & ~tob(f)) for f in forms)


def conditions(it, forms, **env):
    return [spec_it(it, 'return ' + f, **env) for f in forms]


def c25(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        objective(ctx, r, name)
        constructor(ctx, r, name)
    for name in H.SCHEMES:
        want = name in H.RESFUN
        r = H.optimizer(name, repo=ctx.repo, resfun=not want)
        w = f'{MIN} ({name}), resfun={not want}'
        ctx.count('constructors')
        rs = [ev for ev in r.init_events if ev.kind in (
            'raise', 'implicit_raise')]
        ctx.ob('schemes and resfun have to fit', w, r.st_init.dead and rs and
               all(ev.data['exc'] == 'ValueError' for ev in rs), [
                   f'{ev.data["exc"]} at {where(r.eng, ev)}' for ev in rs]
               if r.st_init.dead else 'the constructor returns')
    # numbers where arrays are expected
    for name, k, what in ((None, {0: 1}, 'array as value'),
                          (None, {1: 'float'}, 'number as gradient'),
                          (None, {2: 'float'}, 'number as Hessian'),
                          ('BFGS', {0: 1}, 'array as value'),
                          ('BFGS', {1: 'float'}, 'number as gradient'),
                          ('HybridFixed', {1: 'float'},
                           'number as gradient'),
                          ('HybridFixed', {2: 'float'},
                           'number as Hessian')):
        numbers(ctx, name, k, what)
    from . import schemes
    for name, inner in schemes.configurations():
        initial(ctx, name, inner)


def after(r, ev):
    return [e for e in r.events if e.seq > ev.seq]


def objective(ctx, r, name):
    e = r.eng
    it = Iter(r)
    w = f'{MIN} ({label(name)})'
    ctx.count('runs')
    first = it.init_evals[0]
    n = num(NARGOUT.get(name, 3))
    if e.config.get('resfun'):
        n = num(2)
    x0 = [sym('x0')]
    good = conditions(it, ['x.ndim == 1', 'len(x.shape) == 1'],
                      x=sym('x0'))
    ctx.ob('x0 has to be a vector', w, implied(it, first.pc, good),
           showb(first.pc, 3)[:300])
    ctx.count('conditions')
    for ev in [it.init_evals[0], trial(it)]:
        t = ev.data['result']
        wv = f'{w}: {where(e, ev)}'
        forms = conditions(it, [
            'isinstance(t, tuple) and len(t) == n',
            'type(t) is tuple and len(t) == n'], t=t, n=n)
        ctx.count('conditions')
        if ev is first:
            uses = [it.L.entry.pc] + [tr.pc for tr in it.trs]
        else:
            uses = [acceptance(it) & it.end.pc, it.end.pc]
        ctx.ob('the objective has to return a tuple of the right number of '
               'values', wv, all(implied(it, pc, forms) for pc in uses),
               f'{show(n)} values')
        for x in after(r, ev):
            if x.kind in ('raise', 'implicit_raise') and any(sat(
                    x.pc & ~tob(f)) for f in forms[:1]) and (
                        x.loops == ev.loops):
                ctx.ob('other output raises ValueError',
                       f'{w}: {where(e, x)}', x.data['exc'] == 'ValueError',
                       x.data['exc'])
                ctx.count('errors')
            if x.kind in ('usercall', 'trust_region', 'setattr',
                          'scheme.update', 'scheme._init_mat') and \
                    x.loops == ev.loops and sat(x.pc & ~tob(forms[0])) and \
                    not any(not sat(x.pc & ~tob(f)) for f in forms):
                ctx.ob('output is checked before it is used',
                       f'{w}: {where(e, x)}', False,
                       x.kind + ' ' + str(x.data.get('name', '')))
    # shapes at the start point
    F, G, Hn, _, _ = it.ev_model(first)
    x = sym('x0')
    conds = [('the value has to be a scalar', F, [
        'np.isscalar(v)', 'np.ndim(v) == 0', 'v.ndim == 0'], F.id),
        ('the gradient has to be a vector of the length of x', G, [
            'not np.isscalar(v) and v.ndim == 1 and len(v) == len(x)',
            'v.ndim == 1 and len(v) == len(x)', 'v.shape == x.shape',
            'v.shape == (len(x),)', 'v.ndim == 1 and v.size == len(x)',
            'v.ndim == 1 and v.size == x.size'],
         1)]
    if Hn is not None and (name is None or NARGOUT.get(name, 3) == 3):
        conds.append(('the Hessian has to be a square matrix of the size of '
                      'x', Hn, [
                          'v.ndim == 2 and v.shape[0] == v.shape[1] and '
                          'v.shape[0] == len(x)',
                          'v.ndim == 2 and v.shape[1] == len(x) and '
                          'v.shape[0] == len(x)',
                          'v.shape == (len(x), len(x))',
                          'v.shape == (x.size, x.size)'], 2))
    for rule, v, forms, _ in conds:
        fs = conditions(it, forms, v=v, x=x)
        ctx.count('conditions')
        uses = [it.L.entry.pc] + [tr.pc for tr in it.trs] + [
            ev.pc for ev in it.evals]
        ctx.ob(rule, w, all(implied(it, pc, fs) for pc in uses),
               f'{show(v, 3)}: {showb(it.L.entry.pc, 3)[:300]}')
        for ev in after(r, first):
            if ev.kind == 'raise' and not ev.loops and \
                    not implied(it, ev.pc, fs) and it.L.id not in ev.loops:
                ctx.count('errors')
                ctx.ob('other output raises ValueError',
                       f'{w}: {where(e, ev)}', ev.data['exc'] ==
                       'ValueError', f'{rule}: {ev.data["exc"]}')


def constructor(ctx, r, name):
    e = r.eng
    w = f'{MIN} ({label(name)}), constructor'
    ctx.count('constructors')
    st = r.st_init.fork()
    st.pc = TRUE
    bad = tob(spec(e, st, "return a == 'scg' and b == 'refine'",
                   a=opt(r, 'subspace_solver'),
                   b=opt(r, 'stepback_strategy')))
    ctx.ob('scg cannot be combined with refine', w,
           not sat(r.st_init.pc & bad), showb(r.st_init.pc, 4)[:300])
    rs = [ev for ev in r.init_events if ev.kind in (
        'raise', 'implicit_raise') and not ev.data['handled']]
    for ev in rs:
        ctx.ob('incompatible settings raise ValueError',
               f'{w}: {where(e, ev)}', ev.data['exc'] == 'ValueError',
               ev.data['exc'])
        ctx.ob('compatible settings are accepted', f'{w}: {where(e, ev)}',
               not sat(ev.pc & ~bad), showb(ev.pc, 4)[:300])


def numbers(ctx, name, kinds, what):
    r = H.optimizer(name, repo=ctx.repo, uret=kinds)
    e = r.eng
    w = f'{MIN} ({label(name)}), {what}'
    ctx.count('kinds of output')
    calls = [ev for ev in r.events if ev.kind == 'usercall']
    ctx.need('calls of the objective', len(calls))
    late = [ev for ev in r.events if ev.seq > calls[0].seq]
    bad = [ev for ev in late if ev.kind in ('trust_region', 'usercall') and
           sat(ev.pc)]
    if kinds == {0: 1}:
        # the value may be an array without dimensions
        v = mk('call', 'uitem', calls[0].data['result'], num(0), num(1))
        sc = atom(mk('call', 'isscalar', v))
        bad = [ev for ev in bad if sat(ev.pc & ~sc)]
        late = [ev for ev in late if sat(ev.pc & ~sc)]
    ctx.ob('unsuitable output ends the run before a trial point is '
           'evaluated', w, not bad, [where(e, ev) for ev in bad])
    errs = [ev for ev in late if ev.kind in ('raise', 'implicit_raise') and
            not ev.data['handled']]
    ctx.ob('unsuitable output raises an error', w, bool(errs), '')
    for ev in errs:
        ctx.ob('unsuitable output raises ValueError', f'{w}: '
               f'{where(e, ev)}', ev.data['exc'] == 'ValueError',
               ev.data['exc'])


def initial(ctx, name, inner):
    from . import schemes
    r = schemes.srun(ctx, name, inner)
    e = r.eng
    w = f'{HES} {name}' + (f' with {inner}' if name.startswith('Hy') else '')
    ctx.count('schemes')
    st = r.st_init.fork()
    st.pc = TRUE
    fs = [spec(e, st, 'return ' + f, h=box(e, st, sym('H0')), n=r.dim)
          for f in ('h.shape == (n, n)',
                    'h.ndim == 2 and h.shape[0] == n and h.shape[1] == n')]
    ctx.ob('an initial Hessian of other shape is rejected', w,
           any(not sat(r.st_init.pc & ~tob(f)) for f in fs),
           showb(r.st_init.pc, 4)[:300])
    for ev in r.init_events:
        if ev.kind == 'raise':
            ctx.ob('an initial Hessian of other shape raises ValueError',
                   f'{w}: {where(e, ev)}', ev.data['exc'] == 'ValueError',
                   ev.data['exc'])
            ctx.ob('initial Hessians of right shape are accepted',
                   f'{w}: {where(e, ev)}', any(
                       not sat(ev.pc & tob(f)) for f in fs),
                   showb(ev.pc, 4)[:300])
