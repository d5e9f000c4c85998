"""Analysis entry points: abstract drivers for the parts of the package."""

from .interp import *  # noqa: F401,F403
from .interp import Engine, Obj, State, ref, AnalysisError
from .terms import *  # noqa: F401,F403
from .terms import mk
from . import ext


class Node:
    lineno = 0
    col_offset = 0


N0 = Node()

STEP_RANKS = {
    's': 1, 's0': 1, 'ss': 1, 'ss0': 1, 'og_s': 1, 'og_ss': 1, 'og_sc': 1,
    'sc': 1, 'x': 1, 'sg': 1, 'br': 1, 'cg': 1, 'lb': 1, 'ub': 1,
    'iminbr': 1, 'shess': 2, 'chess': 2, 'subspace': 2, 'scaling': 2,
    'qpval': 0, 'alpha': 0, 'theta': 0, 'delta': 0, 'minbr': 0,
    'qpval0': 0, 'reflection_count': 0, 'truncation_count': 0, 'type': 0,
    'posdef': 0, 'newton': 0,
}
# fields with one entry per variable
VARS = ('s', 's0', 'ss', 'ss0', 'og_s', 'og_ss', 'x', 'sg', 'br', 'cg')

M = 'fides.minimize'
OPT = 'fides.minimize.Optimizer'
HA = 'fides.hessian_approximation'

SCHEMES = ['BFGS', 'DFP', 'Broyden', 'SR1', 'BG', 'BB', 'HybridFixed',
           'HybridFraction', 'FX', 'SSM', 'TSSM', 'GNSBFGS']
RESFUN = {'FX', 'SSM', 'TSSM', 'GNSBFGS'}


def arr(eng, st, name, r=1, user=False, **kw):
    t = sym(name, rank=r, notnone=True, **kw)
    oid = ('in', name)
    st.heap[oid] = Obj('arr', f={'c': t}, label=name,
                       meta={'user': True} if user else {})
    return ref(oid)


def lazy_step(prefix, scaled=False):
    def lazy(eng, v, o, name, st):
        if name in ('reflection_indices', 'truncation_indices'):
            t = mk('ref', ('stepset', prefix, name))
            st.heap[t.args[0]] = Obj('set', f={'v': sym(
                f'{prefix}.{name}', notnone=True)}, label=name)
            st.set(v.args[0], name, t)
            return t
        if name == 'logger':
            t = sym('logger', notnone=True)
            st.set(v.args[0], name, t)
            return t
        if name not in STEP_RANKS:
            return None
        r = STEP_RANKS[name]
        t = sym(f'{prefix}.{name}', rank=r, notnone=True, **(
            {'dim': 'g'} if name in VARS else {}))
        if scaled and name in ('s', 's0', 'og_s'):
            # unscaled form of a scaled segment
            t = mul(sym('dvec'), sym(f'{prefix}.' + name.replace(
                's', 'ss'), rank=1, notnone=True))
        if r:
            oid = ('stepfield', prefix, name)
            if oid not in st.heap:
                st.heap[oid] = Obj('arr', f={'c': t}, label=name)
            t = ref(oid)
        st.set(v.args[0], name, t)
        return t

    return lazy


def hook_trust_region(eng):
    names = {}

    def hook(e, st, args, kwargs, node, f):
        key = ext.callkey(e, node)
        p = names.setdefault(key, 'step%s' % (len(names) or ''))
        fi = e.funcs[f.args[0]]
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = dict(zip(pos, args))
        bound.update(kwargs)
        ev = e.event('trust_region', st, node, bound={
            k: v for k, v in bound.items()},
            contents={k: e.content(v, st) for k, v in bound.items()},
            prefix=p)
        if ev is not None:
            e.snap(ev, st)
        oid = ('step', p)
        st.heap[oid] = Obj('inst', 'fides.steps.Step', {}, p,
                           meta={'lazy': lazy_step(p), 'anysub': True})
        return ref(oid)

    return hook


def opt_key(name):
    return mk('const', name)


def optdict(eng, st, name='options'):
    t = sym(name, notnone=True)
    oid = ('in', name)
    st.heap[oid] = Obj('dict', f={}, label=name,
                       meta={'opaque': t, 'user': True})
    return ref(oid)


def global_value(eng, mod, name):
    v = eng.base.heap[('mod', mod)].f.get(name)
    if v is None or v is ABSENT:
        raise AnalysisError(f'{mod} has no {name}')
    return v


def hook_logger(e, st, args, kwargs, node, f):
    e.event('create_logger', st, node, args=args)
    return mk('call', 'logging.getLogger', sym('loggername'))


def scheme_instance(eng, st, cls, iterative='BFGS', given=None):
    """Instance with symbolic parameters, except for those in given
    (None: left out)."""
    q = HA + '.' + cls
    kw = {}
    init = eng.lookup_class(q, '__init__')
    names = []
    if init is not None and init.op == 'func':
        n = eng.funcs[init.args[0]].node
        names = [a.arg for a in n.args.args[1:] + n.args.kwonlyargs]
    for a in names:
        if given is not None and a in given:
            if given[a] is not None:
                kw[a] = given[a](eng, st)
        elif a == 'happ':
            kw[a] = scheme_instance(eng, st, iterative)
        elif a == 'enforce_curv_cond':
            kw[a] = bt(atom(mk('truth', sym('enforce', rank=0))))
        else:
            kw[a] = sym('p_' + a, rank=0, notnone=True)
    return eng.instantiate(q, [], kw, st, N0)


class Run:
    pass


def mutable_fields(eng, oid):
    """Fields of an object that some event of the run writes."""
    out = []
    for e in eng.events:
        if e.kind == 'setattr' and e.data['recv'].op == 'ref' and \
                e.data['recv'].args[0] == oid:
            if e.data['name'] not in out:
                out.append(e.data['name'])
    return out


def optimizer(scheme=None, iterative='BFGS', repo='/repo', resfun=None,
              stale=True, hooks=None, reset=True, funargs=True,
              adversary=False,
              hessarr=False, logger=True, uret=None, validate=True):
    """Analyse Optimizer.__init__ followed by one minimize() call on an
    object in an arbitrary state left over by earlier calls."""
    cfg = {'resfun': bool(scheme in RESFUN if resfun is None else resfun)}
    if adversary:
        cfg['adversary'] = True
    if uret:
        cfg['uret'] = dict(uret)
    eng = Engine(repo, config=cfg)
    eng.hooks['fides.constants:validate_options'] = (
        lambda e, st, a, k, n, f: NONE)
    eng.hooks['fides.trust_region:trust_region'] = hook_trust_region(eng)
    if logger:
        eng.hooks['fides.logging:create_logger'] = hook_logger
    for c in list(eng.classes):
        if c.startswith(HA + '.'):
            for m in ('update', '_init_mat', 'set_mat'):
                f = eng.lookup_class(c, m)
                if f is not None and f.op == 'func':
                    eng.hooks[eng.funcs[f.args[0]].qual] = record_call(m)
    eng.hooks.update(hooks or {})
    st = eng.base.fork()
    havoc_globals(eng, st)
    r = Run()
    r.eng = eng
    sym('fun', userfun=True, notnone=True, distinct=True)
    r.options = optdict(eng, st)
    r.lb = arr(eng, st, 'lb', 1, user=True)
    r.ub = arr(eng, st, 'ub', 1, user=True)
    r.x0 = arr(eng, st, 'x0', 1, user=True)
    r.funargs = optdict(eng, st, 'funargs') if funargs else NONE
    r.scheme = scheme_instance(eng, st, scheme, iterative) if scheme else \
        NONE
    r.hess0 = arr(eng, st, 'hess0', 2, user=True) if hessarr else \
        sym('hess0', rank=2)
    r.start_id = sym('start_id', rank=0)
    kw = {'fun': sym('fun'), 'ub': r.ub, 'lb': r.lb,
          'verbose': sym('verbose', rank=0, notnone=True),
          'options': r.options, 'funargs': r.funargs,
          'hessian_update': r.scheme, 'resfun': bt(TRUE if cfg['resfun']
                                                   else FALSE)}
    r.opt = eng.instantiate(OPT, [], kw, st, N0)
    r.oid = r.opt.args[0] if r.opt.op == 'ref' else None
    r.init_events = eng.events
    r.st_init = st.fork()
    if st.dead:
        return r
    if stale:
        havoc_run_state(eng, st, r)
    eng.events = []
    eng.loops = []
    r.entry = st.fork()
    r.fields0 = dict(st.heap[r.oid].f)
    r.ret = eng.call_method(r.opt, 'minimize', [
        r.x0, r.start_id, r.hess0], {}, st, N0)
    r.st = st
    r.events = eng.events
    r.loops = eng.loops
    r.main = main_loop(r)
    return r


def havoc_globals(eng, st):
    """Numbers that functions assign to module level names may have any
    value."""
    import ast

    for mod, tree in eng.asts.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                for k in n.names:
                    v = st.get(('mod', mod), k)
                    if v is not None and v is not ABSENT and numval(
                            v) is not None:
                        st.set(('mod', mod), k, sym(
                            f'global.{mod}.{k}', rank=0, notnone=True))


def havoc_run_state(eng, st, r):
    """Any field that methods reachable from minimize() may write gets an
    arbitrary value left over from an earlier run."""
    w = writable_fields(eng)
    r.stale = {}
    targets = [r.oid]
    if r.scheme is not NONE:
        targets.append(r.scheme.args[0])
        o = st.heap[r.scheme.args[0]]
        for v in o.f.values():
            if v.op == 'ref' and st.heap[v.args[0]].kind == 'inst':
                targets.append(v.args[0])
    for oid in targets:
        o = st.heap[oid]
        for k, v in list(o.f.items()):
            if not is_writable(eng, w, st, o.cls, k, v):
                continue
            if v.op == 'ref' and st.heap[v.args[0]].kind == 'inst':
                continue
            name = f'old.{o.cls.split(".")[-1]}.{k}'
            if v.op == 'ref' and st.heap[v.args[0]].kind in ('arr', 'view'):
                rk = rank(eng.content(v, st))
                if k in ('_hess', '_diff', '_structured_diff', 'A', 'hess'):
                    rk = 2
                st.set(oid, k, arr(eng, st, name, rk))
            elif v.op == 'b':
                st.set(oid, k, bt(atom(mk('truth', sym(name, rank=0)))))
            elif v.op == 'ref' and st.heap[v.args[0]].kind == 'dict':
                st.set(oid, k, optdict(eng, st, name))
            else:
                st.set(oid, k, sym(name, rank=0))
            r.stale[(oid, k)] = st.get(oid, k)


MUTATORS = ('append', 'update', 'extend', 'add', 'clear', 'setdefault',
            'fill', 'insert', 'pop', 'remove', 'sort')


def writable_fields(eng):
    """{(class or None, attribute): 'assign' | 'mutate'} for attributes
    written outside __init__; class None stands for writes through a
    receiver other than self."""
    import ast

    out = {}

    def put(cls, a, how):
        if out.get((cls, a)) != 'assign':
            out[(cls, a)] = how

    def own(cls, selfname, v):
        return cls if isinstance(v, ast.Name) and v.id == selfname else None

    def visit(fn, cls):
        selfname = fn.args.args[0].arg if cls and fn.args.args else None
        for x in ast.walk(fn):
            t = []
            if isinstance(x, (ast.Assign, ast.Delete)):
                t = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For)):
                t = [x.target]
            elif isinstance(x, ast.NamedExpr):
                t = [x.target]
            elif isinstance(x, ast.withitem) and x.optional_vars:
                t = [x.optional_vars]
            for y in t:
                for z in ast.walk(y):
                    if isinstance(z, ast.Attribute) and isinstance(
                            z.ctx, (ast.Store, ast.Del)):
                        put(own(cls, selfname, z.value), z.attr, 'assign')
                    if isinstance(z, ast.Subscript) and isinstance(
                            z.value, ast.Attribute) and isinstance(
                                z.ctx, (ast.Store, ast.Del)):
                        put(own(cls, selfname, z.value.value), z.value.attr,
                            'mutate')
            if isinstance(x, ast.AugAssign) and isinstance(
                    x.target, ast.Attribute):
                put(own(cls, selfname, x.target.value), x.target.attr,
                    'assign')
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id == 'setattr':
                if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    put(own(cls, selfname, x.args[0]), x.args[1].value,
                        'assign')
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and isinstance(
                        x.func.value, ast.Attribute) and \
                    x.func.attr in MUTATORS:
                put(own(cls, selfname, x.func.value.value),
                    x.func.value.attr, 'mutate')

    for m, tree in eng.asts.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                for fn in n.body:
                    if isinstance(fn, (ast.FunctionDef,
                                       ast.AsyncFunctionDef)):
                        fn._in_class = True
                        if fn.name != '__init__':
                            visit(fn, f'{m}.{n.name}')
        for fn in tree.body:
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                visit(fn, None)
    return out


def is_writable(eng, w, st, cls, name, v):
    """May the field hold something else after construction?"""
    mro = [c for c in eng.mro(cls)] + [None]
    how = {w.get((c, name)) for c in mro} - {None}
    if 'assign' in how:
        return True
    return bool(how) and v.op == 'ref' and st.heap[v.args[0]].kind in (
        'list', 'dict', 'set', 'arr', 'view', 'tuple')


def main_loop(r):
    """The loop whose body proposes steps (calls trust_region)."""
    ids = set()
    for e in r.events:
        if e.kind == 'trust_region':
            ids.add(e.loops)
    r.trloops = ids
    for l in r.loops:
        for t in ids:
            if t and l.id == t[-1]:
                return l
    return None


# --------------------------------------------------------------------------
def bind_call(e, f, args, kwargs):
    fi = e.funcs[f.args[0]]
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    bound = dict(zip(pos, args))
    bound.update(kwargs)
    return bound


def record_call(kind):
    """Record a call (receiver and arguments), then analyse it as usual."""

    def hook(e, st, args, kwargs, node, f):
        b = bind_call(e, f, args, kwargs)
        recv = args[0] if args else NONE
        e.event('scheme.' + kind, st, node, recv=recv, bound=b,
                contents={k: e.content(v, st) for k, v in b.items()
                          if v is not recv})
        return None

    return hook


def hook_solver(kind, result):
    """Opaque subproblem solver: records its arguments, returns an unknown
    array (fresh per call)."""

    def hook(e, st, args, kwargs, node, f):
        b = bind_call(e, f, args, kwargs)
        cont = {k: e.content(v, st) for k, v in b.items()}
        ev = e.event(kind, st, node, bound=b, contents=cont)
        return result(e, st, cont, ev)

    return hook


def res_nd(e, st, cont, ev):
    t = mk('call', 'nd_solution', *[cont[k] for k in sorted(cont)
                                        if k != 'logger'])
    EXTRANK.setdefault('nd_solution', 1)
    if ev is not None:
        ev.data['result'] = t
    return mk('tuple', (e.wrap(st, t), mk('call', 'nd_case', t)))


def res_1d(e, st, cont, ev):
    t = mk('call', '1d_solution', *[cont[k] for k in sorted(cont)
                                        if k != 'logger'])
    EXTRANK.setdefault('1d_solution', 1)
    if ev is not None:
        ev.data['result'] = t
    return e.wrap(st, t)


def res_bnd(e, st, cont, ev):
    t = mk('call', 'boundary', *[cont[k] for k in sorted(cont)
                                        if k != 'logger'])
    EXTRANK.setdefault('boundary', 0)
    if ev is not None:
        ev.data['result'] = t
    return t


SUBSPACES = ['2D', 'full', 'scg']
STRATEGIES = ['reflect_single', 'reflect', 'truncate', 'mixed', 'refine']
SP = 'fides.subproblem:'


def solver_hooks(eng):
    eng.hooks[SP + 'solve_nd_trust_region_subproblem'] = hook_solver(
        'solve_nd', res_nd)
    eng.hooks[SP + 'solve_1d_trust_region_subproblem'] = hook_solver(
        'solve_1d', res_1d)
    eng.hooks[SP + 'get_1d_trust_region_boundary_solution'] = hook_solver(
        'solve_bnd', res_bnd)


def tr_args(eng, st):
    a = {}
    for n, r in (('x', 1), ('g', 1), ('hess', 2), ('delta', 0), ('dv', 1),
                 ('theta', 0), ('lb', 1), ('ub', 1)):
        if r:
            kw = {'dim': 'g'} if n in ('x', 'g', 'dv') else {}
            a[n] = arr(eng, st, n, r, user=True, **kw)
        else:
            a[n] = sym(n, rank=0, notnone=True)
    arr(eng, st, 'dvec', 1, dim='g')
    D = mk('diag', sym('dvec'))
    oid = ('in', 'scaling')
    st.heap[oid] = Obj('arr', f={'c': mk('csc', D)}, label='scaling',
                       meta={'user': True})
    a['scaling'] = ref(oid)
    a['logger'] = sym('logger', notnone=True)
    return a


def step_args(eng, st):
    a = tr_args(eng, st)
    sg = arr(eng, st, 'sg', 1, user=True, dim='g')
    oid = ('in', 'g_dscaling')
    st.heap[oid] = Obj('arr', f={'c': mk('csc', mk('diag', sym(
        'gdv', rank=1, dim='g')))}, label='g_dscaling', meta={'user': True})
    a['sg'] = sg
    a['g_dscaling'] = ref(oid)
    for k in ('g', 'dv'):
        del a[k]
    return a


def enum_member(eng, cls, value):
    st = eng.base.fork()
    return eng.enum_lookup('fides.constants.' + cls, const(value), st, N0)


def trust_region_run(sub, strat, repo='/repo'):
    eng = Engine(repo, config={})
    candidate_hooks(eng)
    st = eng.base.fork()
    r = Run()
    r.eng = eng
    a = tr_args(eng, st)
    a['subspace_dim'] = enum_member(eng, 'SubSpaceDim', sub) \
        if isinstance(sub, str) else sub
    a['stepback_strategy'] = enum_member(eng, 'StepBackStrategy', strat) \
        if isinstance(strat, str) else strat
    r.args = a
    f = global_value(eng, 'fides.trust_region', 'trust_region')
    eng.events = []
    eng.loops = []
    r.ret = eng.call(f, [], a, st, N0)
    r.st = st
    r.events = eng.events
    r.loops = eng.loops
    return r


STEPS = 'fides.steps'


def step_run(cls, repo='/repo', calculate=True, hooks=True, between=None):
    """Analyse construction of one candidate class and its calculate()."""
    eng = Engine(repo, config={})
    if hooks:
        solver_hooks(eng)
    st = eng.base.fork()
    r = Run()
    r.eng = eng
    a = step_args(eng, st)
    q = STEPS + '.' + cls
    init = eng.lookup_class(q, '__init__')
    names = [x.arg for x in eng.funcs[init.args[0]].node.args.args][1:]
    if 'step' in names:
        oid = ('in', 'prev')
        st.heap[oid] = Obj('inst', STEPS + '.Step', {}, 'prev',
                           meta={'lazy': lazy_step('prev', True), 'anysub': True})
        a['step'] = ref(oid)
        a.pop('logger')
    a = {k: v for k, v in a.items() if k in names}
    r.args = a
    eng.events = []
    eng.loops = []
    r.step = eng.instantiate(q, [], a, st, N0)
    r.st_init = st.fork()
    r.init_events = eng.events
    eng.events = []
    if between is not None and not st.dead:
        between(eng, st, r.step.args[0])
    r.st_mid = st.fork()
    if calculate and not st.dead:
        eng.call_method(r.step, 'calculate', [], {}, st, N0)
    r.st = st
    r.events = eng.events
    r.loops = eng.loops
    r.oid = r.step.args[0] if r.step.op == 'ref' else None
    return r


# --------------------------------------------------------------------------
# trust_region() with candidate objects kept opaque
def step_classes(eng):
    base = STEPS + '.Step'
    if base not in eng.classes:
        raise AnalysisError('class fides.steps.Step not found')
    return [c for c in eng.classes if base in eng.mro(c)]


PRE = {'s': None, 'sc': None, 'ss': None, 'og_s': None, 'og_sc': None,
       'og_ss': None, 'qpval': 0, 'alpha': 1, 'minbr': 1}


def candidate_hooks(eng):
    for c in step_classes(eng):
        eng.hooks[c] = hook_candidate(eng)
        f = eng.lookup_class(c, 'calculate')
        if f is None or f.op != 'func':
            raise AnalysisError(f'{c} has no method calculate')
        eng.hooks[eng.funcs[f.args[0]].qual] = hook_calculate


def cand_fields(name, done):
    f = {}
    for k, r in STEP_RANKS.items():
        if k in ('reflection_count', 'truncation_count', 'type', 'posdef',
                 'newton', 'qpval0'):
            continue
        if not done and k in PRE:
            f[k] = const(PRE[k])
        else:
            f[k] = sym(f'{name}.{k}', rank=r, notnone=True)
    return f


def hook_candidate(eng):
    def hook(e, st, args, kwargs, node, f):
        cls = f.args[0]
        init = e.lookup_class(cls, '__init__')
        n = e.funcs[init.args[0]].node
        pos = [x.arg for x in n.args.args][1:]
        if len(args) > len(pos) or not set(kwargs) <= set(pos):
            raise AnalysisError(f'cannot bind arguments of {cls}')
        b = dict(zip(pos, args))
        b.update(kwargs)
        cont = {}
        for k, v in b.items():
            cont[k] = v if k == 'step' else e.content(v, st)
        t = mk('newstep', cls, *[mk('kw', k, v) for k, v in sorted(
            cont.items())])
        oid = ('cand', t)
        name = f'{cls.split(".")[-1]}#{cand_no(e, t)}'
        fl = cand_fields(name, False)
        for k, v in list(fl.items()):
            if STEP_RANKS[k] and v is not NONE:
                a = ('candf', t, k)
                st.heap[a] = Obj('arr', f={'c': v}, label=k)
                fl[k] = ref(a)
        for k in ('reflection_indices', 'truncation_indices'):
            a = ('candset', t, k)
            st.heap[a] = Obj('set', f={'v': sym(f'{name}.{k}',
                                                notnone=True)}, label=k)
            fl[k] = ref(a)
        fl['logger'] = sym('logger', notnone=True)
        fl['__done'] = FALSET
        st.heap[oid] = Obj('inst', cls, fl, name, meta={})
        e.event('newstep', st, node, cls=cls, contents=cont, oid=oid,
                bound=b, name=name)
        return ref(oid)

    return hook


def cand_no(e, t):
    d = e.config.setdefault('cands', {})
    return d.setdefault(t, len(d))


def hook_calculate(e, st, args, kwargs, node, f):
    def calc(v, s):
        o = e.obj(v, s)
        if o is None or o.kind != 'inst':
            return NONE
        oid = v.args[0]
        fl = cand_fields(o.label, True)
        for k, x in fl.items():
            if STEP_RANKS[k]:
                a = ('candf', oid, k)
                s.heap[a] = Obj('arr', f={'c': x}, label=k)
                x = ref(a)
            s.set(oid, k, x)
        s.set(oid, '__done', TRUET)
        e.ghosts[oid] = s.heap[oid]
        for x in s.heap[oid].f.values():
            if x.op == 'ref':
                e.ghosts[x.args[0]] = s.heap[x.args[0]]
        e.event('calculate', s, node, oid=oid, cls=o.cls)
        return NONE

    e.over_cases(args[0], st, calc)
    return NONE


# --------------------------------------------------------------------------
# update schemes on their own
SCHEME_ARGS = {
    's': ('s', 1), 'delta': ('s', 1), 'y': ('y', 1), 'gamma': ('y', 1),
    'yb': ('yb', 1), 'r': ('r', 1), 'rprev': ('rprev', 1),
    'hess': ('C', 2), 'iter_since_tr_update': ('since', 0),
    'tr_nonupdates': ('nonupdates', 0), 'iterations': ('iterations', 0),
}
ITERATIVE = ['BFGS', 'DFP', 'Broyden', 'SR1', 'BG', 'BB']


def matsym(eng, st, name, symmetric=True):
    t = sym(name, rank=2, notnone=True, symmetric=symmetric)
    oid = ('in', name)
    st.heap[oid] = Obj('arr', f={'c': t}, label=name, meta={'user': True})
    return ref(oid)


def scheme_run(cls, iterative='BFGS', repo='/repo', symmetric=True,
               updates=1, hess0=True, given=None):
    """
    Constructor, _init_mat and an update of a scheme, the latter in the
    state that earlier updates may have left behind.
    """
    eng = Engine(repo, config={})
    st = eng.base.fork()
    r = Run()
    r.eng, r.name = eng, cls
    r.scheme = scheme_instance(eng, st, cls, iterative, given)
    r.new_events = eng.events
    if st.dead or r.scheme.op != 'ref':
        raise AnalysisError(f'{cls} cannot be constructed')
    r.oid = r.scheme.args[0]
    r.st_new = st.fork()
    eng.events, eng.loops = [], []
    r.dim = sym('n', rank=0, notnone=True)
    r.hess0 = matsym(eng, st, 'H0', symmetric) if hess0 else NONE
    eng.call_method(r.scheme, '_init_mat', [r.dim, r.hess0], {}, st, N0)
    r.init_events = eng.events
    if st.dead:
        raise AnalysisError(f'{cls}._init_mat always fails')
    r.st_init = st.fork()
    r.init_mat = getter(r, 'get_mat', r.st_init)
    r.init_diff = getter(r, 'get_diff', r.st_init)
    havoc_scheme(eng, st, r, symmetric)
    r.st0 = st.fork()
    r.mat0 = getter(r, 'get_mat', r.st0)
    upd = eng.lookup_class(HA + '.' + cls, 'update')
    if upd is None or upd.op != 'func':
        raise AnalysisError(f'{cls} has no method update')
    names = [a.arg for a in eng.funcs[upd.args[0]].node.args.args][1:] + [
        a.arg for a in eng.funcs[upd.args[0]].node.args.kwonlyargs]
    r.args = {}
    for n in names:
        if n not in SCHEME_ARGS:
            raise AnalysisError(f'{cls}.update: unknown argument {n}')
        k, rk = SCHEME_ARGS[n]
        if rk == 2:
            r.args[n] = matsym(eng, st, k, symmetric)
        elif rk:
            r.args[n] = arr(eng, st, k, rk, user=True)
        else:
            r.args[n] = sym(k, rank=0, notnone=True)
    eng.events, eng.loops = [], []
    eng.call_method(r.scheme, 'update', [], dict(r.args), st, N0)
    r.st, r.events, r.loops = st, eng.events, eng.loops
    r.updfunc = upd
    return r


def getter(r, name, st):
    s = st.fork()
    r.eng.dry += 1
    v = r.eng.call_method(r.scheme, name, [], {}, s, N0)
    r.eng.dry -= 1
    return r.eng.content(v, s)


def havoc_scheme(eng, st, r, symmetric):
    """Any state that update() or set_mat() may have left."""
    w = writable_fields(eng)
    r.stale = {}
    targets = [('', r.oid)]
    for k, v in st.heap[r.oid].f.items():
        if isinstance(v, T) and v.op == 'ref' and \
                st.heap[v.args[0]].kind == 'inst':
            targets.append((k + '.', v.args[0]))
    for pre, oid in targets:
        o = st.heap[oid]
        for k, v in list(o.f.items()):
            if not isinstance(v, T) or not is_writable(
                    eng, w, st, o.cls, k, v):
                continue
            if v.op == 'ref' and st.heap[v.args[0]].kind == 'inst':
                continue
            name = 'now.' + pre + k
            if v.op == 'ref' and st.heap[v.args[0]].kind in ('arr', 'view'):
                rk = rank(eng.content(v, st))
                t = sym(name, rank=rk, notnone=True,
                        symmetric=symmetric and rk == 2)
                a = ('in', name)
                st.heap[a] = Obj('arr', f={'c': t}, label=name)
                st.set(oid, k, ref(a))
            elif v.op == 'b':
                st.set(oid, k, bt(atom(mk('truth', sym(name, rank=0)))))
            elif v.op == 'ref':
                raise AnalysisError(f'state of a scheme: {o.cls}.{k}')
            else:
                st.set(oid, k, sym(name, rank=0))
            r.stale[(oid, k)] = st.get(oid, k)


# --------------------------------------------------------------------------
# subproblem solvers on their own
SOLVER_ARGS = {
    'b': ('B', 2), 'g': ('g', 1), 's': ('s', 1), 's0': ('s0', 1),
    'delta': ('delta', 0),
}


def solver_run(name, repo='/repo', symmetric=True, hooks=None):
    eng = Engine(repo, config={})
    eng.hooks.update(hooks or {})
    st = eng.base.fork()
    r = Run()
    r.eng, r.name = eng, name
    f = global_value(eng, 'fides.subproblem', name)
    if f.op != 'func':
        raise AnalysisError(f'{name} is not a function')
    r.args = {}
    n = eng.funcs[f.args[0]].node
    for a in n.args.args + n.args.kwonlyargs:
        if a.arg == 'logger':
            r.args['logger'] = sym('logger', notnone=True)
            continue
        if a.arg not in SOLVER_ARGS:
            if len(r.args) >= len(SOLVER_ARGS) - (name.startswith(
                    'solve_nd') and 2):
                continue
            raise AnalysisError(f'{name}: unknown argument {a.arg}')
        k, rk = SOLVER_ARGS[a.arg]
        if rk == 2:
            r.args[a.arg] = matsym(eng, st, k, symmetric)
        elif rk:
            r.args[a.arg] = arr(eng, st, k, rk, user=True)
        else:
            r.args[a.arg] = sym(k, rank=0, notnone=True)
    eng.events, eng.loops = [], []
    r.func = f
    r.ret = eng.call(f, [], dict(r.args), st, N0)
    r.st, r.events, r.loops = st, eng.events, eng.loops
    return r
