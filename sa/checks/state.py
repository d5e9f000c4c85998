"""Isolation, determinism and bookkeeping of runs (C24, C26-C32)."""

import ast

from .run import *  # noqa: F401,F403
from .run import (acceptance, trial, MIN, opt, model, DEFAULTS, mk, T, spec_it,
                  impure_terms, returned, head_symbols, path_end, path_name,
                  scheme_oids, changed, in_loop)
from .base import never
from ..interp import AnalysisError, ABSENT, NONE, State, Obj, ref
from ..harness import N0

HES = 'fides/hessian_approximation.py'


# --------------------------------------------------------------------- C24
STRINGS = {'subspace_solver': '2D', 'stepback_strategy': 'reflect'}


def option_terms(r):
    """All reads of options: {term: event or place}"""
    out = {}

    def look(t, where_):
        for x in subterms(t):
            if x.op in ('dictget', 'dictitem', 'has') and x.args and \
                    x.args[0] is sym('options'):
                out.setdefault(x, where_)

    def lookb(b, where_):
        for a in batoms(b):
            look(a, where_)

    e = r.eng
    for ev in r.init_events + r.events:
        lookb(ev.pc, ev)
        for v in ev.data.values():
            if isinstance(v, T):
                look(v, ev)
            elif isinstance(v, dict):
                for x in v.values():
                    if isinstance(x, T):
                        look(x, ev)
            elif isinstance(v, (list, tuple)):
                for x in v:
                    if isinstance(x, T):
                        look(x, ev)
    for L in r.loops:
        for st in (L.ends, L.entry):
            if st is None:
                continue
            lookb(st.pc, None)
            o = st.heap.get(r.oid)
            for v in o.f.values() if o else ():
                if isinstance(v, T):
                    look(e.content(v, st), None)
    for st in (r.st_init, r.st):
        for v in st.heap[r.oid].f.values():
            if isinstance(v, T):
                look(e.content(v, st), None)
    return out


def key_of(k):
    if k.op == 'enum':
        k = k.args[1]
    return k.args[0] if k.op == 'const' else None


def plain(v):
    return v.args[1] if v.op == 'enum' else v


def c24(ctx):
    from . import loop, steps
    for name in (None, 'BFGS', 'HybridFixed', 'SSM'):
        r = run(name, repo=ctx.repo)
        e = r.eng
        w = f'{MIN} ({label(name)})'
        seen = set()
        for t, ev in sorted(option_terms(r).items(), key=lambda x: x[0].id):
            k = key_of(t.args[1])
            wt = f'{w}{": " + where(e, ev) if ev is not None else ""} {k}'
            ctx.count('option reads')
            ctx.ob('options are looked up by documented names', wt,
                   k in DEFAULTS or k in STRINGS, show(t, 3))
            if t.op == 'dictget':
                seen.add(k)
                d = plain(t.args[2])
                want = const(STRINGS[k]) if k in STRINGS else \
                    DEFAULTS.get(k, sym('?'))
                ctx.ob('the documented default is used', wt, d is want or (
                    numval(d) is not None and numval(d) == numval(want)),
                    f'default is {show(d)}, documented is {show(want)}')
            elif t.op == 'dictitem':
                ctx.ob('options that are not given have a default', wt,
                       False, f'{show(t, 3)} has no default')
        for k in list(DEFAULTS) + list(STRINGS):
            ctx.ob('every option is looked up', f'{w} {k}', k in seen,
                   'the option is never used')
    # options can be named by enum member or string
    r = run('BFGS', repo=ctx.repo)
    e = r.eng
    for k in list(DEFAULTS) + list(STRINGS):
        m = None
        try:
            m = H.enum_member(e, 'Options', k)
        except AnalysisError:
            pass
        ok = m is not None and m.op == 'enum' and e.is_strenum(m) and \
            plain(m) is const(k)
        ctx.ob('member and string name the same option',
               f'fides/constants.py Options {k}', ok, show(m) if m else '')
        ctx.count('option names')
    # what the options govern
    loop.c09(ctx)
    loop.c10(ctx)
    loop.c12(ctx)
    steps.theta(ctx)
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        w = f'{MIN} ({label(name)})'
        for tr in it.trs:
            c = tr.data['contents']
            for k, o in (('subspace_dim', 'subspace_solver'),
                         ('stepback_strategy', 'stepback_strategy')):
                t = mk('dictget', sym('options'), const(o), NONE)
                got = {x for x in [c[k]] if x.op == 'dictget' and
                       key_of(x.args[1]) == o and
                       x.args[0] is sym('options')}
                ctx.ob(f'option {o} is passed on', f'{w}: '
                       f'{where(it.eng, tr)}', bool(got), show(c[k], 3))
        files = [ev for ev in r.events if ev.kind == 'extcall' and
                 ev.data['name'] == 'h5py.File']
        for ev in files:
            a = ev.data['args'][0]
            ctx.ob('the history file is the one of the option',
                   f'{w}: {where(it.eng, ev)}', a.op == 'dictget' and
                   key_of(a.args[1]) == 'history_file', show(a, 3))


# --------------------------------------------------------------------- C26
def stale_in(t):
    return [x for x in subterms(t) if x.op == 'sym' and
            str(x.args[0]).startswith('old.') or x.op == 'had']


def stale_b(b):
    out = []
    for a in batoms(b):
        out += stale_in(a)
        if a.op == 'had':
            out.append(a)
    return out


LATEST = ['exitflag', 'converged', 'iteration', 'start_id', 'x_min',
          'fval_min', 'grad_min', 'history', 'delta', 'starttime',
          'iterations_since_tr_update', 'n_intermediate_tr_radius']


def names(xs):
    return ', '.join(sorted({show(x, 2) for x in xs}))


def shared_writes(r, events):
    """Events that write to objects that exist since import time, or to
    classes, functions or modules."""
    out = []
    base = r.eng.base.heap
    for ev in events:
        k = ev.kind
        if k in ('globalwrite', 'classwrite', 'funcattr', 'extattr'):
            out.append(ev)
        elif k in ('setattr', 'dictset', 'dictdel', 'listset', 'append',
                   'extend', 'setwrite', 'arrwrite'):
            v = ev.data.get('recv', ev.data.get('base'))
            if isinstance(v, T) and v.op == 'ref' and v.args[0] in base:
                out.append(ev)
    return out


def c26(ctx):
    for name in ALL:
        inners = ['BFGS']
        if ctx.tier == 'thorough' and name and name.startswith('Hybrid'):
            inners = H.ITERATIVE
        for inner in inners:
            r = run(name, inner, repo=ctx.repo)
            history_free(ctx, r, name)


def starts_free(ctx, r, w):
    """What iterations use of the values before the first one is not left
    over by earlier runs."""
    e = r.eng
    for L in r.loops:
        old = {}
        for p in L.varying:
            try:
                t = e.path_entry(L.entry, p)
                m = e.path_entry(L.head, p)
            except (KeyError, AttributeError):
                continue
            if not isinstance(t, T) or not isinstance(m, T):
                continue
            bad = stale_in(t)
            if t.op == 'b':
                bad += stale_b(t.args[0])
            if bad:
                old[m] = (p, bad)
                if m.op == 'b':
                    for a in batoms(m.args[0]):
                        old[a] = (p, bad)
        used = {}
        if old:
            ts = []
            for ev in r.events:
                ts += [x for x in (ev.data.get('contents') or {}).values()
                       if isinstance(x, T)] if isinstance(
                    ev.data.get('contents'), dict) else [
                    x for x in ev.data.get('contents') or ()
                    if isinstance(x, T)]
                ts.append(bt(ev.pc))
            for st in (L.ends,) + tuple(L.brks or ()):
                if st is not None:
                    ts.append(bt(st.pc))
            for p, (t, *_) in L.endvals.items():
                ts.append(t if not isinstance(t, T) or t not in old or
                          old[t][0] != p else ZERO)
            for t in ts:
                for x in subterms(t):
                    if x in old:
                        used[old[x][0]] = old[x][1]
                    elif x.op == 'b':
                        for a in batoms(x.args[0]):
                            if a in old:
                                used[old[a][0]] = old[a][1]
        ctx.count('values checked', len(L.varying))
        for p, bad in used.items():
            ctx.ob('the first iteration does not depend on earlier runs',
                   f'{w} {path_name(p)}', False, 'depends on ' + names(bad)
                   + ' of an earlier run')


def history_free(ctx, r, name):
    e = r.eng
    it = Iter(r)
    w = f'{MIN} ({label(name)})'
    ctx.count('runs')
    ctx.count('values left over by earlier runs', len(r.stale))

    def free(what, wv, ts=(), bs=()):
        bad = []
        for t in ts:
            bad += stale_in(t)
        for b in bs:
            bad += stale_b(b)
        ctx.count('values checked', len(ts) + len(bs))
        ctx.ob(what, wv, not bad, 'depends on ' + names(bad) +
               ' of an earlier run' if bad else '')

    for ev in r.events:
        wv = f'{w}: {where(e, ev)}'
        if ev.kind in ('usercall', 'trust_region', 'scheme.update',
                       'scheme._init_mat', 'scheme.set_mat'):
            c = ev.data['contents']
            if ev.kind == 'usercall':
                ts = list(c)
            else:
                ts = [v for k, v in sorted(c.items())]
            free('calls do not depend on earlier runs', wv, ts, [ev.pc])
        if ev.kind == 'raise':
            free('errors do not depend on earlier runs', wv, (), [ev.pc])
        if ev.kind in ('usercall', 'raise') and ev.heap is not None:
            st = State(ev.heap, ev.pc)
            for k in LATEST:
                v = st.get(r.oid, k)
                if v is None or v is ABSENT:
                    continue
                try:
                    t = deep(e, v, st)
                except (KeyError, AttributeError):
                    continue
                free('results describe the latest run, even if it fails',
                     f'{wv} {k}', [t])
    ts, bs = [], [r.st.pc]
    rv = returned(r)
    if rv is None:
        raise AnalysisError('minimize() returns no tuple')
    free('the result does not depend on earlier runs', w, rv, bs)
    o = r.st.heap[r.oid]
    for k, v in sorted(o.f.items(), key=str):
        if isinstance(v, T) and v is not ABSENT:
            free('fields describe the latest run', f'{w} {k}',
                 [deep(e, v, r.st)])
    for L in r.loops:
        for st in (L.ends,) + tuple(L.brks or ()):
            if st is None:
                continue
            free('iterations do not depend on earlier runs', w, (), [st.pc])
    m = it.L.varying
    for p in sorted(m, key=str):
        t = path_end(it, p)
        if t is None or t.op == 'ref':
            continue
        free('iterations do not depend on earlier runs',
             f'{w} {path_name(p)}', [t])
    starts_free(ctx, r, w)
    # no memory outside of the optimizer
    for ev in shared_writes(r, r.events):
        ctx.ob('nothing is kept outside of the optimizer',
               f'{w}: {where(e, ev)}', False, f'{ev.kind} '
               f'{ev.data.get("name", "")}')
    for ev in r.events:
        if ev.kind == 'cachedcall':
            ctx.ob('nothing is kept outside of the optimizer',
                   f'{w}: {where(e, ev)}', False, 'cached results')


def deep(e, v, st, n=0):
    """Content of a value with its parts."""
    if v.op == 'ref' and n < 4:
        o = st.heap.get(v.args[0])
        if o is not None and o.kind in ('inst', 'dict', 'list'):
            if o.meta.get('opaque'):
                return o.meta['opaque']
            ps = [deep(e, x, st, n + 1) for x in o.f.values()
                  if isinstance(x, T) and x is not ABSENT]
            return mk('tuple', tuple(ps))
    if v.op == 'segs':
        return mk('tuple', tuple(deep(e, x, st, n + 1)
                                 for _, x in v.args[0]))
    return e.content(v, st)


# --------------------------------------------------------------------- C27
def roots(e, v, st, seen=None, n=0):
    """Objects of the arrays that a value is or contains."""
    out = set()
    seen = set() if seen is None else seen
    if not isinstance(v, T) or v is ABSENT:
        return out
    if v.op == 'cases':
        for _, l in v.args[0]:
            out |= roots(e, l, st, seen, n)
        return out
    if v.op == 'tuple':
        for x in v.args[0]:
            out |= roots(e, x, st, seen, n + 1)
        return out
    if v.op != 'ref' or v.args[0] in seen:
        return out
    seen.add(v.args[0])
    o = st.heap.get(v.args[0])
    if o is None:
        return out
    if o.kind == 'arr':
        return out | {v.args[0]}
    if o.kind == 'view':
        return out | roots(e, o.f['base'], st, seen, n + 1)
    if o.kind in ('inst', 'dict'):
        for x in o.f.values():
            out |= roots(e, x, st, seen, n + 1)
    elif o.kind == 'list':
        for _, x in o.f['items'].args[0]:
            out |= roots(e, x, st, seen, n + 1)
    return out


def foreign(st, oids):
    return {o for o in oids if st.heap[o].meta.get('user')}


def handed_out(r):
    out = set()
    for ev in r.init_events + r.events:
        if ev.kind == 'usercall':
            for a in ev.data['args']:
                out |= roots(r.eng, a, State(ev.heap, ev.pc))
    return out


def label_of(st, o):
    return st.heap[o].label or str(o)


def used_terms(r, it):
    """Terms that influence what the run does after an iteration."""
    out = set()

    def put(t):
        for x in subterms(t):
            out.add(x)

    def putb(b):
        for a in batoms(b):
            put(a)

    for ev in r.events:
        putb(ev.pc)
        c = ev.data.get('contents')
        if c is not None:
            for x in c.values() if isinstance(c, dict) else c:
                if isinstance(x, T):
                    put(x)
    for p in it.L.varying:
        if p[0][0] == r.oid or p[0][0] in scheme_oids(it):
            t = path_end(it, p)
            if t is not None:
                put(t)
    return out


def c27(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo, hessarr=True)
        owned(ctx, r, name)
        ra = run(name, repo=ctx.repo, hessarr=True, adversary=True)
        unaffected(ctx, ra, name)
    for what, r in parts(ctx):
        writes(ctx, r, what)
    from . import schemes
    for name, inner in schemes.configurations():
        scheme_copies(ctx, name, inner)


def writes(ctx, r, what):
    for ev in list(getattr(r, 'init_events', [])) + list(r.events):
        if ev.kind == 'arrwrite':
            ctx.count('array stores')
            ctx.ob('arrays of the caller are not modified',
                   f'{what}: {where(r.eng, ev)}', not ev.data['user'],
                   show(ev.data['new'], 3)[:400])
    ctx.count('functions')


def owned(ctx, r, name):
    e = r.eng
    it = Iter(r)
    w = f'{MIN} ({label(name)})'
    ctx.count('runs')
    writes(ctx, r, w)
    out = handed_out(r)
    states = [('after construction', r.st_init), ('before the first '
              'iteration', it.L.entry), ('after an iteration', it.L.ends),
              ('after the run', r.st)]
    states += [('when the loop is left', s) for s in (it.L.brks or ())]
    for ev in r.events:
        if ev.kind == 'usercall' and ev.heap is not None:
            states.append((f'when the objective is called at '
                           f'{where(e, ev)}', State(ev.heap, ev.pc)))
        elif ev.kind == 'raise' and ev.heap is not None:
            states.append((f'when {where(e, ev)} raises',
                           State(ev.heap, ev.pc)))
    for what, st in states:
        if st is None:
            continue
        tops = [('optimizer', st.heap.get(r.oid))]
        if r.scheme is not NONE:
            for s in scheme_oids(it):
                if s in st.heap:
                    tops.append((st.heap[s].label or 'scheme', st.heap[s]))
        for n, o in tops:
            for k, v in sorted(o.f.items(), key=str):
                rs = roots(e, v, st)
                ctx.count('references to arrays', len(rs))
                bad = foreign(st, rs)
                ctx.ob('no array of the caller or the objective is kept',
                       f'{w} {n}.{k} {what}', not bad,
                       [label_of(st, x) for x in bad])
                bad = {x for x in rs if x in out}
                ctx.ob('no array handed to the objective is kept',
                       f'{w} {n}.{k} {what}', not bad,
                       [label_of(st, x) for x in bad])
    used = None
    for p in sorted(it.L.varying, key=str):
        if p[0][0] == r.oid or p[0][0] in scheme_oids(it):
            continue
        v = it.L.endvals.get(p)
        if v is None:
            continue
        st = State(v[1], TRUE)
        rs = roots(e, v[0], st)
        bad = foreign(st, rs) | {x for x in rs if x in out}
        if not bad:
            continue
        h = {s for s, q in head_symbols(it).items()
             if q[:len(p)] == p}
        if used is None:
            used = used_terms(r, it)
        bad = [label_of(st, x) for x in bad] if h & used else []
        ctx.ob('no array of the caller or the objective is used in a later '
               'iteration', f'{w} {path_name(p)}', not bad, bad)


def clobbered(t):
    return contains(t, lambda x: x.op == 'call' and x.args[0] == 'clobbered')


def clobbered_b(b):
    return any(clobbered(a) for a in batoms(b))


def unaffected(ctx, r, name):
    """Nothing depends on what the objective may have stored."""
    e = r.eng
    it = Iter(r)
    w = f'{MIN} ({label(name)})'
    rule = 'modifications made by the objective have no effect'
    for ev in r.events:
        if ev.kind in ('usercall', 'trust_region', 'scheme.update',
                       'scheme._init_mat', 'scheme.set_mat', 'raise'):
            c = ev.data.get('contents', [])
            ts = [x for x in (c.values() if isinstance(c, dict) else c)
                  if isinstance(x, T)]
            ctx.count('values checked', len(ts) + 1)
            bad = [t for t in ts if clobbered(t)]
            ctx.ob(rule, f'{w}: {where(e, ev)}', not bad and
                   not clobbered_b(ev.pc), [show(t, 4)[:300] for t in bad])
    for t in returned(r) or []:
        ctx.ob(rule, f'{w} result', not clobbered(t), show(t, 4)[:300])
    for p in sorted(it.L.varying, key=str):
        t = path_end(it, p)
        if t is None or t.op == 'ref' or p[0][0] not in (
                {r.oid} | scheme_oids(it)):
            continue
        ctx.count('values checked')
        ctx.ob(rule, f'{w} {path_name(p)}', not clobbered(t),
               show(t, 4)[:300])
    ctx.ob(rule, w, not clobbered_b(r.st.pc) and not clobbered_b(
        it.end.pc), '')


GETTERS = ['get_mat', 'get_diff', 'get_structured_diff']


def scheme_copies(ctx, name, inner):
    from . import schemes
    r = schemes.srun(ctx, name, inner)
    e = r.eng
    w = f'{HES} {name}' + (f' with {inner}' if name.startswith('Hy') else '')
    ctx.count('schemes')
    insts = [r.oid] + [v.args[0] for v in r.st.heap[r.oid].f.values()
                       if isinstance(v, T) and v.op == 'ref' and
                       r.st.heap[v.args[0]].kind == 'inst']

    def kept(st, what):
        for oid in insts:
            o = st.heap[oid]
            for k, v in sorted(o.f.items(), key=str):
                rs = roots(e, v, st)
                # 'now.*' stands for arrays of the scheme
                bad = [label_of(st, x) for x in foreign(st, rs)]
                ctx.ob('schemes keep no array of the caller',
                       f'{w} {k} {what}', not bad, bad)

    def fresh(st, what):
        mine = set()
        for oid in insts:
            mine |= roots(e, ref(oid), st)
        for g in GETTERS:
            m = e.lookup_class(H.HA + '.' + name, g)
            if m is None:
                continue
            s = st.fork()
            s.pc = TRUE
            e.dry += 1
            try:
                v = e.call_method(r.scheme, g, [], {}, s, N0)
            finally:
                e.dry -= 1
            if s.dead or not isinstance(v, T):
                continue
            rs = roots(e, v, s)
            ctx.count('getters')
            ctx.ob('getters return copies', f'{w} {g} {what}',
                   not (rs & mine), [label_of(s, x) for x in rs & mine])

    kept(r.st_init, 'after initialisation')
    kept(r.st, 'after an update')
    fresh(r.st_init, 'after initialisation')
    fresh(r.st, 'after an update')
    m = e.lookup_class(H.HA + '.' + name, 'set_mat')
    if m is not None and m.op == 'func':
        st = r.st.fork()
        st.pc = TRUE
        mat = H.matsym(e, st, 'M')
        n = len(e.events)
        s = st.fork()
        e.call_method(r.scheme, 'set_mat', [mat], {}, s, N0)
        evs = e.events[n:]
        del e.events[n:]
        if not s.dead:
            kept(s, 'after set_mat()')
            fresh(s, 'after set_mat()')
        for ev in evs:
            if ev.kind == 'arrwrite':
                ctx.ob('arrays of the caller are not modified',
                       f'{w}: {where(e, ev)}', not ev.data['user'], '')


# --------------------------------------------------------------------- C28
WORLD = {'os', 'sys', 'platform', 'socket', 'getpass', 'locale', 'random',
         'secrets', 'tempfile', 'datetime', 'threading', 'multiprocessing',
         'gc', 'inspect', 'resource', 'psutil', 'subprocess', 'io',
         'pathlib', 'weakref', 'time', 'uuid'}


def world(x):
    """A value read from the process, the machine or the clock."""
    if x.op == 'impure':
        return True
    if x.op in ('const', 'sym', 'enum', 'fstr'):
        return False
    for a in x.args:
        if isinstance(a, str):
            p = a.split('.')
            if len(p) > 1 and p[0] in WORLD and p[-1] != 'Lock' or \
                    a in ('builtins.open', 'builtins.hash', 'builtins.input',
                          'hash'):
                return True
    return False


def c28(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        e = r.eng
        it = Iter(r)
        w = f'{MIN} ({label(name)})'
        ctx.count('runs')
        imp = impure_terms(r)
        ctx.count('reads of clock and identifiers', len(imp))

        def bad_terms(t):
            return [x for x in subterms(t) if world(x)]

        def bad_atoms(b):
            out = []
            for a in batoms(b):
                xs = bad_terms(a)
                if xs and not (all(x.op == 'impure' and 'time' in x.args[0]
                                   for x in xs) and
                               contains(a, lambda t: t.op == 'dictget' and
                                        key_of(t.args[1]) == 'maxtime')):
                    out += xs
            return out

        def det(what, wv, ts=(), bs=()):
            bad = [x for t in ts for x in bad_terms(t)] + [
                x for b in bs for x in bad_atoms(b)]
            ctx.count('values checked', len(ts) + len(bs))
            ctx.ob(what, wv, not bad, 'depends on ' + ', '.join(
                sorted({show(x, 1) for x in bad})))

        for ev in r.events:
            wv = f'{w}: {where(e, ev)}'
            if ev.kind in ('usercall', 'trust_region', 'scheme.update',
                           'scheme._init_mat'):
                c = ev.data['contents']
                ts = list(c) if ev.kind == 'usercall' else [
                    v for _, v in sorted(c.items())]
                det('calls are deterministic', wv, ts, [ev.pc])
            elif ev.kind == 'setiter':
                ctx.ob('nothing is done in the order of a set', wv, False,
                       show(ev.data.get('recv', NONE), 3)
                       if isinstance(ev.data.get('recv'), T) else '')
            elif ev.kind == 'raise':
                det('errors are deterministic', wv, (), [ev.pc])
        det('results are deterministic', w, returned(r) or [], [r.st.pc])
        det('the first iteration is deterministic', w, (),
            [it.L.entry.pc])
        for p in sorted(it.L.varying, key=str):
            v = e.path_entry(it.L.entry, p)
            if isinstance(v, T) and v is not ABSENT and \
                    v.op not in ('ref', 'segs') and \
                    p[0][1] != 'starttime':
                det('the first iteration is deterministic',
                    f'{w} {path_name(p)}', [v])
            t = path_end(it, p)
            if t is None or t.op == 'ref' or p[0][1] in ('starttime',):
                continue
            if p[0][1] == 'exitflag':
                ts, bs = [], [g for g, _ in pairs(t)]
            else:
                ts, bs = [l for _, l in pairs(t)], [g for g, _ in pairs(t)]
            det('iterations are deterministic', f'{w} {path_name(p)}', ts,
                bs)
        for f in ('x_min', 'fval_min', 'grad_min', 'converged', 'delta',
                  'iteration', 'x', 'fval', 'grad', 'hess'):
            det('fields are deterministic', f'{w} {f}',
                [it.field(r.st, f)])
    # the computation of steps
    from . import steps
    n = 0
    for what, r in parts(ctx):
        n += 1
        for ev in r.events + getattr(r, 'init_events', []):
            if ev.kind == 'extcall' and str(ev.data['name']).split('.')[
                    0] in WORLD and '.' in str(ev.data['name']):
                ctx.ob('steps and updates are deterministic',
                       f'{what}: {where(r.eng, ev)}', False,
                       str(ev.data['name']))
            elif ev.kind == 'impure':
                ctx.ob('steps and updates are deterministic',
                       f'{what}: {where(r.eng, ev)}', False,
                       str(ev.data['name']))
            elif ev.kind == 'setiter':
                ctx.ob('nothing is done in the order of a set',
                       f'{what}: {where(r.eng, ev)}', False, '')
        ctx.ob('steps and updates are deterministic', what, True)
    ctx.count('step and update functions', n)


_solv = {}


def parts(ctx):
    """Runs of step computation, candidates, subproblem solvers and update
    schemes on their own."""
    from . import steps, schemes
    for sub in H.SUBSPACES:
        for strat in H.STRATEGIES:
            yield f'trust_region ({sub}, {strat})', steps.trrun(
                ctx, sub, strat)
    for c in steps.candidate_classes(ctx):
        yield c, steps.step(ctx, c)
    for name, inner in schemes.configurations():
        yield f'{name}.update', schemes.srun(ctx, name, inner)
    for f in SOLVERS:
        yield f, solver(ctx, f)


SOLVERS = ['solve_nd_trust_region_subproblem',
           'solve_1d_trust_region_subproblem',
           'get_1d_trust_region_boundary_solution']


def solver(ctx, f):
    k = (ctx.repo, f)
    if k not in _solv:
        _solv[k] = H.solver_run(f, ctx.repo)
    return _solv[k]


# --------------------------------------------------------------------- C29
def c29(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        unshared(ctx, r, f'{MIN} ({label(name)})')
        r = run(name, repo=ctx.repo, logger=False)
        loggers(ctx, r, f'{MIN} ({label(name)})')
    for what, r in parts(ctx):
        unshared(ctx, r, what)
    defaults(ctx)


def unshared(ctx, r, w):
    evs = list(getattr(r, 'init_events', [])) + list(r.events)
    ctx.count('functions')
    ctx.count('stores', len([e for e in evs if e.kind in (
        'setattr', 'dictset', 'listset', 'append', 'arrwrite')]))
    bad = shared_writes(r, evs)
    ctx.ob('nothing that is shared is changed', w, not bad,
           [f'{where(r.eng, e)}: {e.kind} {e.data.get("name", "")}'
            for e in bad])
    for ev in evs:
        if ev.kind == 'cachedcall':
            ctx.ob('no results are shared through caches',
                   f'{w}: {where(r.eng, ev)}', False, '')


def defaults(ctx):
    """Objects made with default arguments share nothing."""
    eng = H.Engine(ctx.repo, config={})
    eng.hooks['fides.constants:validate_options'] = (
        lambda e, st, a, k, n, f: NONE)
    todo = [(H.OPT, {'fun': sym('fun'), 'lb': 1, 'ub': 1})]
    todo += [(f'{H.HA}.{c}', {}) for c in H.SCHEMES + ['HessianApproximation']
             if f'{H.HA}.{c}' in eng.classes]
    for cls, kw in todo:
        st = eng.base.fork()
        kw = {k: H.arr(eng, st, k) if v == 1 else v for k, v in kw.items()}
        init = eng.lookup_class(cls, '__init__')
        if init is not None and init.op == 'func':
            a = eng.funcs[init.args[0]].node.args
            nd = len(a.args) - len(a.defaults)
            for x in a.args[1:nd]:
                if x.arg not in kw:
                    kw[x.arg] = sym('p_' + x.arg, rank=0, notnone=True)
        v = eng.instantiate(cls, [], kw, st, N0)
        w = f'{cls.split(".")[-1]} with default arguments'
        ctx.count('constructors')
        if st.dead or v.op != 'ref':
            raise AnalysisError(f'{cls} cannot be constructed')
        bad = shared_refs(eng, v, st, '', set())
        ctx.ob('objects made with default arguments share nothing', w,
               not bad, bad)


def shared_refs(eng, v, st, path, seen):
    if not isinstance(v, T) or v is ABSENT:
        return []
    if v.op == 'cases':
        return [x for _, l in v.args[0]
                for x in shared_refs(eng, l, st, path, seen)]
    if v.op == 'tuple':
        return [x for l in v.args[0]
                for x in shared_refs(eng, l, st, path, seen)]
    if v.op != 'ref' or v.args[0] in seen:
        return []
    seen.add(v.args[0])
    o = st.heap.get(v.args[0])
    if o is None:
        return []
    if v.args[0] in eng.base.heap and o.kind in (
            'arr', 'list', 'dict', 'set', 'inst', 'view'):
        return [path]
    if o.kind in ('inst', 'dict'):
        return [x for k, l in sorted(o.f.items(), key=str)
                if not (o.kind == 'inst' and str(k).startswith('_'))
                for x in shared_refs(eng, l, st, f'{path}.{k}', seen)]
    return []


def unique(t, fresh):
    """t is a string that differs for different values of fresh terms."""
    if t in fresh:
        return True
    if t.op == 'lin' or t.op == 'sym':
        return any(is_number_shift(t, f) for f in fresh)
    if t.op in ('fstr', 'fmt', 'str', 'tuple'):
        for a in t.args:
            if isinstance(a, T) and unique(a, fresh):
                return True
            if isinstance(a, tuple) and any(
                    isinstance(x, T) and unique(x, fresh) for x in a):
                return True
        return False
    if t.op == 'impure':
        return 'uuid' in str(t.args[0])
    if t.op == 'call':
        if t.args[0] in ('next', 'builtins.next'):
            return contains(t, lambda x: x.op == 'call' and str(
                x.args[0]).split('.')[-1] == 'count')
        if str(t.args[0]) in ('str', 'm.hex', 'repr'):
            return any(isinstance(a, T) and unique(a, fresh)
                       for a in t.args[1:])
    if t.op in ('attr', 'getattr'):
        return any(isinstance(a, T) and unique(a, fresh) for a in t.args)
    return False


def is_number_shift(t, f):
    return numval(sub(t, f)) is not None


def counter_regions(e, mod, name):
    """[(function, node, locked region or None)] of the accesses of a module
    level name in functions."""
    out = []
    tree = e.asts[mod]
    locks = set()
    for n in tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(
                n.value, ast.Call):
            f = ast.unparse(n.value.func).split('.')[-1]
            if f in ('Lock', 'RLock', 'Condition', 'Semaphore') and (
                    f != 'Semaphore' or not n.value.args):
                for t in n.targets if isinstance(n, ast.Assign) else [
                        n.target]:
                    if isinstance(t, ast.Name):
                        locks.add(t.id)

    def lock_call(s, what):
        return isinstance(s, ast.Expr) and isinstance(
            s.value, ast.Call) and isinstance(
            s.value.func, ast.Attribute) and s.value.func.attr == what and \
            isinstance(s.value.func.value, ast.Name) and \
            s.value.func.value.id in locks and not s.value.args and \
            not s.value.keywords

    def visit(n, fn, region):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            fn = n
        if isinstance(n, ast.Name) and n.id == name and fn is not None:
            out.append((fn, n, region))
        if isinstance(n, ast.With):
            for i in n.items:
                visit(i, fn, region)
            inner = region
            for i in n.items:
                c = i.context_expr
                if isinstance(c, ast.Name) and c.id in locks:
                    inner = n
            for s in n.body:
                visit(s, fn, inner)
            return
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                held = None
                for s in v:
                    if isinstance(s, ast.AST):
                        if lock_call(s, 'acquire'):
                            held = s
                        elif lock_call(s, 'release'):
                            held = None
                        elif held is not None and isinstance(s, ast.Try) \
                                and any(lock_call(x, 'release')
                                        for x in s.finalbody):
                            for x in s.body + s.orelse:
                                visit(x, fn, s)
                            for h in s.handlers:
                                visit(h, fn, s)
                            held = None
                            continue
                        visit(s, fn, held or region)
            elif isinstance(v, ast.AST):
                visit(v, fn, region)

    visit(tree, None, None)
    return out


def loggers(ctx, r, w):
    e = r.eng
    it = Iter(r)
    made = [ev for ev in r.events if ev.kind == 'extcall' and
            ev.data['name'] == 'logging.getLogger']
    calls = [ev for ev in r.events if ev.kind == 'usercall']
    ctx.need('calls of the objective', len(calls), 2)
    fresh = {}
    for ev in r.events:
        if ev.kind == 'globalwrite':
            g = sym(f'global.{ev.data["mod"]}.{ev.data["name"]}')
            v = ev.data['value']
            wv = f'{w}: {where(e, ev)}'
            d = numval(sub(v, g)) if rank(v) == 0 else None
            ctx.ob('module level data is only changed to count loggers', wv,
                   d is not None and d > 0, show(v, 3))
            if d is not None and d > 0:
                fresh[v] = ev
    ctx.ob('a new logger is made before the objective is called', w,
           all(not sat(c.pc & ~disj(*[m.pc for m in made if m.seq < c.seq]))
               for c in calls), f'{len(made)} loggers')
    names = []
    for tr in it.trs:
        t = tr.data['contents'].get('logger')
        if t is None:
            continue
        for g, l in pairs(t):
            if not sat(g & tr.pc):
                continue
            wv = f'{w}: {where(e, tr)}'
            ok = l.op == 'call' and l.args[0] == 'logging.getLogger' and \
                len(l.args) > 1
            ctx.ob('steps are logged to a logger of this run', wv, ok,
                   show(l, 4))
            if ok:
                names.append((wv, l.args[1]))
    for m in made:
        a = list(m.data['args']) + [v for _, v in sorted(
            m.data['kwargs'].items())]
        names.append((f'{w}: {where(e, m)}', e.content(a[0], r.st)
                      if a else NONE))
    used = set()
    for wv, t in names:
        ctx.count('logger names')
        ctx.ob('the name of the logger is unique', wv,
               unique(t, set(fresh)), show(t, 5))
        used |= {f for f in fresh if contains(t, lambda x: x is f)}
        if contains(t, lambda x: x.op == 'call' and str(
                x.args[0]).endswith('next')):
            for fi in e.funcs.values():
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Call) and ast.unparse(
                            n.func).split('.')[-1] == 'count' and \
                            'logger' in fi.qual:
                        ctx.ob('the counter of loggers is a single one', wv,
                               False, fi.qual)
    for v, ev in fresh.items():
        acc = counter_regions(e, ev.data['mod'], ev.data['name'])
        ctx.count('accesses of counters', len(acc))
        wv = f'{w}: {where(e, ev)}'
        ctx.ob('the counter is only accessed with its lock held', wv,
               bool(acc) and all(g is not None for _, _, g in acc),
               [f'line {n.lineno}' for _, n, g in acc if g is None])
        for fn in {id(f): f for f, _, _ in acc}.values():
            rs = {id(g) for f, _, g in acc if f is fn}
            ctx.ob('counting is atomic', f'{wv} {getattr(fn, "name", "")}',
                   len(rs) == 1, 'the lock is released in between')
        other = [q for q, tr in e.asts.items() if q != ev.data['mod'] and
                 any(isinstance(n, (ast.Attribute,)) and isinstance(
                     n.ctx, ast.Store) and n.attr == ev.data['name']
                     for n in ast.walk(tr))]
        ctx.ob('the counter is only changed in its module', wv, not other,
               other)


# --------------------------------------------------------------------- C30
def user_exc(b):
    return [a for a in batoms(b) if a.op == 'exc' and a.args[0] == 'user']


def c30(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        e = r.eng
        w = f'{MIN} ({label(name)})'
        ctx.count('runs')

        def after(b):
            """b is possible after the objective has raised."""
            for a in user_exc(b):
                if sat(b & atom(a)):
                    return True
            return False

        calls = [ev for ev in r.events if ev.kind == 'usercall']
        ctx.need('calls of the objective', len(calls), 2)
        for ev in calls:
            ctx.count('calls of the objective')
            wv = f'{w}: {where(e, ev)}'
            ctx.ob('no retry after an exception of the objective', wv,
                   not after(ev.pc), '')
            for m in ev.ctx:
                ctx.ob('the objective is not called within a context that '
                       'may suppress exceptions', wv, not suppresses(m),
                       show(m, 3) if isinstance(m, T) else str(m))
        ctx.ob('no result after an exception of the objective', w,
               not after(r.st.pc), '')
        for L in r.loops:
            for st in [L.ends, L.exits] + list(L.brks or ()):
                if st is not None:
                    ctx.ob('no iterations after an exception of the '
                           'objective', w, not after(st.pc), '')
        for ev in r.events:
            wv = f'{w}: {where(e, ev)}'
            if ev.kind == 'raise':
                if after(ev.pc):
                    ctx.ob('exceptions of the objective are not replaced',
                           wv, bool(ev.data['reraise']),
                           f'raises {ev.data["exc"]}')
                ctx.ob('errors of the optimizer reach the caller', wv,
                       not ev.data['handled'], ev.data['exc'])
                ctx.count('raised errors')
            if ev.kind in ('setattr', 'append', 'extcall') and False:
                pass
        # final blocks that leave the function
        quals = {q for ev in calls for q in ev.stack} | {
            ev.func for ev in r.events if ev.kind == 'raise'}
        for q in sorted(quals):
            for fi in e.funcs.values():
                if fi.qual != q:
                    continue
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Try) and n.finalbody:
                        for x in n.finalbody:
                            for y in ast.walk(x):
                                if isinstance(y, (ast.Return, ast.Break,
                                                  ast.Continue)):
                                    ctx.ob('final blocks do not swallow '
                                           'exceptions', f'{w}: {q}:'
                                           f'{y.lineno}', False, '')


def suppresses(m):
    if not isinstance(m, T):
        return True
    s = show(m, 3)
    if m.op == 'call' and str(m.args[0]) in (
            'numpy.errstate', 'threading.Lock', 'threading.RLock',
            'h5py.File', 'warnings.catch_warnings', 'contextlib.nullcontext',
            'contextlib.closing', 'nullcontext', 'errstate',
            'catch_warnings'):
        return False
    return 'suppress' in s or m.op != 'call'


# --------------------------------------------------------------------- C31
def c31(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        history(ctx, r, name)


def history(ctx, r, name):
    e = r.eng
    it = Iter(r)
    w = f'{MIN} ({label(name)})'
    ctx.count('runs')
    on = e.truth(opt(r, 'history_file'), r.st)
    fin = r.st.pc & on
    files = [ev for ev in r.events if ev.kind == 'extcall' and
             ev.data['name'] == 'h5py.File']
    ctx.ob('runs that return write the history file', w,
           not sat(fin & ~disj(*[ev.pc for ev in files])), '')
    for ev in files:
        wv = f'{w}: {where(e, ev)}'
        a = list(ev.data['args']) + [ev.data['kwargs'].get('mode', NONE)]
        m = a[1]
        ctx.ob('the history file is opened for appending', wv,
               m is const('a'), f'mode {show(m)}')
        ctx.ob('the file is opened once per run', wv, not ev.loops, '')
    groups = [ev for ev in r.events if ev.kind == 'extcall' and
              ev.data['name'] == 'method:create_group']
    ctx.ob('one group per run', w, len(groups) >= 1 and not sat(
        fin & ~disj(*[ev.pc for ev in groups])) and not any(
            sat(a.pc & b.pc) for i, a in enumerate(groups)
            for b in groups[:i]) and not any(ev.loops for ev in groups),
           f'{len(groups)} groups')
    for ev in groups:
        a = ev.data['args'][0] if ev.data['args'] else \
            ev.data['kwargs'].get('name', NONE)
        sid = it.field(r.st, 'start_id')
        ctx.ob('the group is named by the start id',
               f'{w}: {where(e, ev)}', equal(e.content(a, r.st), sid,
                                             ev.pc & r.st.pc),
               equal_cex(e.content(a, r.st), sid, ev.pc & r.st.pc))
    sets = [ev for ev in r.events if ev.kind == 'extcall' and
            ev.data['name'] == 'method:create_dataset']
    lid = it.L.id
    done = {}
    for ev in sets:
        wv = f'{w}: {where(e, ev)}'
        kw = ev.data['kwargs']
        k = (ev.data['args'] + [kw.get('name', NONE)])[0]
        d = kw.get('data', ev.data['args'][-1] if len(
            ev.data['args']) == 4 else NONE)
        if k.op != 'const':
            raise AnalysisError('name of a data set is not known: '
                                + show(k, 3))
        k = k.args[0]
        ctx.ob('data sets go into the group of the run', wv,
               ev.data['recv'].op == 'call' and
               ev.data['recv'].args[0] == 'm.create_group', show(
                   ev.data['recv'], 2))
        done.setdefault(k, []).append((ev, d))
    if not done:
        ctx.ob('history quantities are written', w, False,
               'no data set is created')
        return
    acc = acceptance(it)
    F = it.ev_model(trial(it))[0]
    want = {'fval': F, 'tr_ratio': it.e('tr_ratio'),
            'tr_radius': it.trs[0].data['contents']['delta'],
            'accept': bt(acc)}
    want.update(row(r, it, name, acc))
    for k in want:
        ctx.ob('the documented quantities are recorded', f'{w} {k}',
               k in done, f'recorded: {sorted(done)}')
    for k, evs in sorted(done.items()):
        ctx.count('quantities')
        wk = f'{w} {k}'
        ctx.ob('every run that returns writes the quantity', wk, not sat(
            fin & ~disj(*[ev.pc for ev, _ in evs])), '')
        ctx.ob('the quantity is written once', wk, len(evs) == 1 and
               not evs[0][0].loops, '')
        d = evs[0][1]
        p = list_path(it, d)
        if p is None:
            ctx.ob('the quantity is a list that grows by one entry per '
                   'iteration', wk, False, show(d, 3)[:300])
            continue
        v0 = it.eng.path_entry(it.L.entry, p)
        n0 = items_of(e, v0, it.L.entry)
        ctx.ob('histories start empty', wk, n0 == [], show(v0, 3)[:200]
               if isinstance(v0, T) else str(v0))
        va = it.L.endvals.get(p)
        app = appended(it, p)
        if app is None:
            ctx.ob('the quantity is a list that grows by one entry per '
                   'iteration', wk, False, str(va)[:200])
            continue
        g = [gd & it.end.pc for gd, _ in app]
        cover = disj(*g)
        ctx.ob('one entry per iteration', wk,
               not sat(it.end.pc & on & ~cover) and not any(
                   sat(a & b) for i, a in enumerate(g) for b in g[:i]),
               f'{len(app)} entries; missing if '
               f'{showb(constrain(it.end.pc & on & ~cover, it.end.pc), 3)[:500]}')
        if k in want:
            for gd, v in app:
                pc = gd & it.end.pc
                t = e.content(v, it.end)
                ctx.ob('the documented value is recorded', wk,
                       equal(t, want[k], pc), equal_cex(t, want[k], pc))
                ctx.count('values compared')


def row(r, it, name, acc):
    """The other quantities: those of the point that is kept, of the step
    that was tried, and of the change of the scheme."""
    e = it.eng
    p = it.sp
    hess = it.e('hess')

    def calc(src, **env):
        return spec_it(it, 'return ' + src, **env)

    def bounds(m):
        return [calc(f'np.{f}(np.linalg.eigvals(m))', m=m)
                for f in ('min', 'max')]

    def changes(getter, is_a):
        if name is None or not is_a:
            return [NAN, NAN]
        s = it.end.fork()
        e.dry += 1
        try:
            m = e.content(e.call_method(r.scheme, getter, [], {}, s, H.N0),
                          s)
        finally:
            e.dry -= 1
        return [phi(acc, x, ZERO) for x in bounds(m)]

    structured = name is not None and bool(changes_of_structure(e, r))
    out = {'normgrad': calc('np.linalg.norm(g)', g=it.e('grad')),
           'normstep': calc('np.linalg.norm(a + b)', a=p('s'), b=p('s0')),
           'theta': p('theta'), 'alpha': p('alpha'),
           'reflections': p('reflection_count'),
           'truncations': p('truncation_count'), 'step_type': p('type'),
           'iterations_since_tr_update': it.e('iterations_since_tr_update'),
           'subspace_dim': calc('a.shape[1]', a=p('subspace')),
           'cond_hess': calc('np.linalg.cond(m)', m=hess),
           'cond_shess': calc('np.linalg.cond(m)', m=p('shess'))}
    for pre, (lo, hi) in (
            ('hess', bounds(hess)),
            ('hess_update', changes('get_diff', True)),
            ('hess_struct_update', changes('get_structured_diff',
                                           structured))):
        out[pre + '_min_ev'], out[pre + '_max_ev'] = lo, hi
    return out


def changes_of_structure(e, r):
    c = r.st.heap[r.scheme.args[0]].cls
    return e.lookup_class(c, 'get_structured_diff')


def list_path(it, d):
    """Loop-carried path of a list that is written after the loop."""
    if d.op == 'ref' and isinstance(d.args[0], tuple) and \
            d.args[0][0] == 'head' and d.args[0][1] == it.L.id:
        return d.args[0][2]
    # copies of such lists
    o = it.r.st.heap.get(d.args[0]) if d.op == 'ref' else None
    c = None
    if o is not None and o.kind == 'list':
        c = o.f['items']
    elif o is not None and 'c' in o.f:
        c = o.f['c']
    while c is not None and c.op == 'call' and len(c.args) == 2 and \
            c.args[0] in ('array', 'asarray', 'list', 'tuple'):
        c = c.args[1]
    if c is not None and c.op == 'segs':
        for k, o in it.r.st.heap.items():
            if isinstance(k, tuple) and k[0] == 'head' and \
                    k[1] == it.L.id and o.kind == 'list' and \
                    o.f['items'] is c:
                return k[2]
    return None


def items_of(e, v, st):
    if v is None or v is ABSENT or v.op == 'absent':
        return []
    if v.op == 'ref':
        o = st.heap.get(v.args[0])
        if o is not None and o.kind == 'list':
            return list(o.f['items'].args[0])
    return None


def appended(it, p):
    """[(guard, value)] added to a list in an iteration."""
    L = it.L
    v = L.endvals.get(p)
    if v is None:
        return []
    v, heap = v
    if v.op == 'cases':
        out = []
        for g, l in v.args[0]:
            a = seg_tail(it, l, heap)
            if a is None:
                return None
            out += [(g & h, x) for h, x in a]
        return out
    return seg_tail(it, v, heap)


def seg_tail(it, v, heap):
    if v.op == 'segs':
        segs = v.args[0]
    elif v.op == 'ref':
        o = heap.get(v.args[0])
        if o is None or o.kind != 'list':
            return None
        segs = o.f['items'].args[0]
    else:
        return None
    if not segs or segs[0][1].op not in (
            'splatvar', 'mulist') or segs[0][0] is not TRUE:
        return None
    return list(segs[1:])


# --------------------------------------------------------------------- C32
def c32(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        e = it.eng
        w = f'{MIN} ({label(name)})'
        ctx.count('runs')
        ctx.need('evaluations at the start point', len(it.init_evals))
        for ev in it.init_evals + it.evals:
            wv = f'{w}: {where(e, ev)}'
            ctx.count('calls of the objective')
            c = ev.data['contents']
            ctx.ob('the objective gets one positional argument', wv,
                   len(c) == 1 and rank(c[0]) == 1, [show(x, 3) for x in c])
            kw = ev.data['kwargs']
            fa = r.funargs
            ok = set(kw) == {'**'} and whole(r, kw['**'], ev)
            ctx.ob('the objective gets exactly the extra arguments given',
                   wv, ok, str({k: show(v, 3) for k, v in kw.items()}))
            ctx.ob('the function given is called', wv,
                   ev.data['fun'] is sym('fun'), show(ev.data['fun'], 3))
        acc = acceptance(it)
        ev = trial(it)
        F, G, Hn, rn, Jn = it.ev_model(ev)
        f0, g0, h0, r0, j0 = it.ev_model(it.init_evals[0])
        ent, end = it.L.entry, it.end
        for k, first, new in (('fval', f0, F), ('grad', g0, G)):
            for what, t, wnt, pc in (
                    ('at the start point', it.field(ent, k), first, ent.pc),
                    ('at accepted points', it.e(k), new, acc & end.pc)):
                ctx.count('model values compared')
                ctx.ob(f'{k} {what} is that of the objective', w,
                       equal(t, wnt, pc), equal_cex(t, wnt, pc))
        if name is None:
            for what, t, wnt, pc in (
                    ('at the start point', it.field(ent, 'hess'), h0,
                     ent.pc),
                    ('at accepted points', it.e('hess'), Hn, acc & end.pc)):
                ctx.count('model values compared')
                ctx.ob(f'hess {what} is that of the objective', w,
                       equal(t, wnt, pc), equal_cex(t, wnt, pc))
        for u in r.events:
            if u.kind == 'scheme.update' and u.data['recv'] is r.scheme:
                for k, wnt in (('hess', Hn), ('r', rn)):
                    if k in u.data['contents']:
                        t = u.data['contents'][k]
                        pc = u.pc & acc
                        ctx.count('model values compared')
                        ctx.ob(f'{k} handed to the scheme is that of the '
                               'objective', f'{w}: {where(e, u)}',
                               equal(t, wnt, pc), equal_cex(t, wnt, pc))
    r = run(None, repo=ctx.repo, funargs=False)
    for ev in r.events:
        if ev.kind == 'usercall':
            kw = ev.data['kwargs']
            ok = set(kw) <= {'**'} and all(nothing(r, v, ev)
                                           for v in kw.values())
            ctx.ob('the objective gets no extra arguments if none are given',
                   f'{MIN}: {where(r.eng, ev)}', ok, str(
                       {k: show(v, 3) for k, v in kw.items()}))


def whole(r, v, ev):
    """v holds exactly the extra arguments."""
    if v is r.funargs:
        return not [e for e in r.init_events + r.events if e.kind in (
            'dictset', 'dictdel') and e.data['recv'] is r.funargs]
    st = State(ev.heap, ev.pc)
    o = st.heap.get(v.args[0]) if v.op == 'ref' else None
    if o is None or o.kind != 'dict':
        return False
    if o.meta.get('opaque') is sym('funargs'):
        return True
    q = o.f.get('?', ABSENT)
    return q is not ABSENT and contains(q, lambda t: t is sym(
        'funargs')) and not any(isinstance(k, tuple) for k in o.f)


def nothing(r, v, ev):
    o = ev.heap.get(v.args[0]) if v.op == 'ref' else None
    return o is not None and o.kind == 'dict' and not o.meta.get(
        'opaque') and all(x is ABSENT for x in o.f.values())
