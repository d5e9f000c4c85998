"""Obligations, reference terms and equality for the property checks."""

import ast

from ..interp import Engine, Obj, State, ref, AnalysisError, FuncInfo  # noqa
from ..terms import *  # noqa: F401,F403
from ..terms import mk, T, B
from .. import harness as H
from ..harness import N0

ABSTRACT = AnalysisError


class Ctx:
    """Collects the obligations of one check."""

    def __init__(self, prop, tier='quick', repo='/repo'):
        self.prop = prop
        self.tier = tier
        self.repo = repo
        self.obs = []
        self.bad = []
        self.stats = {}
        self.seen = set()

    def ob(self, rule, where, ok, detail='', key=None):
        k = key or f'{rule} @ {where}'
        self.obs.append((rule, where, bool(ok)))
        if not ok:
            self.bad.append({'rule': rule, 'where': where,
                             'detail': str(detail)[:3000], 'key': k})
        return ok

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def need(self, what, n, least=1):
        """An anchor the rules hang on; its absence is no verdict."""
        if n < least:
            raise AnalysisError(f'{what}: found {n}, expected at least '
                                f'{least}')


SPECHEAD = '''
import numpy as np
from numpy.linalg import norm
import scipy.linalg as linalg
from scipy.sparse import csc_matrix
'''


def spec(eng, st, src, **env):
    """Reference value: `src` (body of a function with parameters env)
    evaluated by the same engine, without side effects on st.  Returns the
    content of the result in normal form."""
    name = '__spec__%d' % len(eng.mods)
    body = '\n'.join('    ' + l for l in src.strip('\n').split('\n'))
    text = SPECHEAD + f'def spec({", ".join(env)}):\n' + body + '\n'
    eng.asts[name] = ast.parse(text)
    eng.paths[name] = '<spec>'
    eng.load_module(name)
    s = st.fork()
    for k, o in eng.base.heap.items():
        if k not in s.heap:
            s.heap[k] = o
    f = s.heap[('mod', name)].f['spec']
    eng.dry += 1
    try:
        v = eng.call(f, [], dict(env), s, N0)
        return eng.content(v, s)
    finally:
        eng.dry -= 1


def unbox(eng, v, st):
    return eng.content(v, st)


def alloc(eng, st, t):
    """Engine value for a term."""
    if rank(t):
        return eng.alloc(st, 'arr', f={'c': t}, label='spec')
    return t


def pairs(t):
    if t.op == 'cases':
        return list(t.args[0])
    return [(TRUE, t)]


def equal(a, b, pc=TRUE, nanfree=True):
    """Both terms have the same value wherever pc holds."""
    if a is b or equal1(a, b, pc, nanfree):
        return True
    if nanfree:
        memo = {}
        a2, b2 = nanfree_form(a, memo), nanfree_form(b, memo)
        if a2 is not a or b2 is not b:
            return equal1(a2, b2, tob(nanfree_form(bt(pc), memo)))
    return False


def equal1(a, b, pc=TRUE, nanfree=True):
    if a is b:
        return True
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args[0]) == len(
            b.args[0]):
        return all(equal1(x, y, pc, nanfree)
                   for x, y in zip(a.args[0], b.args[0]))
    if a.op == 'b' and b.op == 'b':
        x, y = a.args[0], b.args[0]
        d = (x & ~y) | (~x & y)
        return not sat(d & pc, nanfree)
    if a.op == 'b' or b.op == 'b':
        a, b = boolcases(a), boolcases(b)
        if a.op == 'b' and b.op == 'b':
            return equal1(a, b, pc, nanfree)
    for g, x in pairs(a):
        g1 = g & pc
        if not sat(g1, nanfree):
            continue
        for h, y in pairs(b):
            if same_leaf(x, y, g1 & h, nanfree):
                continue
            if sat(g1 & h, nanfree) and not (
                    nanfree and same_ordered(x, y, g1 & h)):
                return False
    return True


def same_ordered(x, y, g):
    """Equal in every order of the arguments of a minimum or maximum."""
    seen = set()
    for m in (x, y, *subterms(x), *subterms(y)):
        if m in seen or m.op not in ('min', 'max') or not isinstance(
                m.args[0], tuple) or len(m.args[0]) != 2 or rank(m):
            continue
        seen.add(m)
        if same_orders(x, y, g, m):
            return True
        if len(seen) >= 4:
            break
    return False


def same_orders(x, y, g, m):
    a, b = m.args[0]
    lo, hi = (a, b) if m.op == 'min' else (b, a)
    for k, vs in ((lt(a, b), [lo]), (lt(b, a), [hi]),
                  (eqn(a, b), [a, b])):
        if sat(g & k, True) and not any(
                p is q or equal1(p, q, g & k) for p, q in (
                    (subst(x, {m: v}.get), subst(y, {m: v}.get))
                    for v in vs)):
            return False
    return True


def never(g):
    """No input without NaN satisfies g."""
    if not sat(g, True):
        return True
    return not sat(tob(nanfree_form(bt(g), {})), True)


def boolcases(t):
    """Table of booleans / numbers used as truth value."""
    if t.op == 'b':
        return t
    return bt(tob(t))


def element(t):
    """Element of an array term."""
    if t.op == 'ones':
        return ONE
    if t.op == 'zeros':
        return ZERO
    return unit(t)


def same_leaf(x, y, g, nanfree, depth=6):
    if x is y:
        return True
    if x.op == 'ew' or y.op == 'ew':
        for m, p in (x.args[0] if x.op == 'ew' else [(TRUE, x)]):
            for k, q in (y.args[0] if y.op == 'ew' else [(TRUE, y)]):
                if element(p) is not element(q) and sat(
                        m & k & g, nanfree):
                    return False
        return True
    if x.op == 'idx' and y.op == 'idx':
        p, q = x.args[0], y.args[0]
        return not sat(((p & ~q) | (~p & q)) & g, nanfree)
    if depth and x.op == y.op and x.op in ('lin', 'prod', 'min', 'max') and \
            same_sum(x, y, g, nanfree, depth - 1):
        return True
    if depth == 6 and (
            x.op in ('lin', 'prod') or y.op in ('lin', 'prod')):
        if rational_equal(x, y):
            return True
    if x.op == y.op and x.op in ('lin', 'prod', 'min', 'max'):
        return False
    # congruence: same operation on arguments that are equal here
    if depth and x.op == y.op and x.op in CONGRUENT and \
            len(x.args) == len(y.args):
        for p, q in zip(x.args, y.args):
            if p is q or p == q:
                continue
            if not (isinstance(p, T) and isinstance(q, T)):
                return False
            if not equal1(p, q, g, nanfree):
                return False
        return True
    return False


def same_sum(x, y, g, nanfree, depth):
    """Commutative operations: equal up to one argument that is equal
    under g."""
    a, b = list(x.args[0]), list(y.args[0])
    if x.op in ('min', 'max'):
        a, b = [(t, 1) for t in a], [(t, 1) for t in b]
    c = [i for i in a if i not in b]
    d = [i for i in b if i not in a]
    if len(c) != len(d) or len(c) > 4:
        return False
    for t, k in c:
        for i, (u, m) in enumerate(d):
            if m == k and t.op != 'cases' and u.op != 'cases' and same_leaf(
                    t, u, g, nanfree, depth):
                del d[i]
                break
        else:
            return False
    return True


CONGRUENT = {'rmin', 'rmax', 'abs', 'csc', 'diag', 'call', 'norm', 'vsum', 'ew1', 'dense', 'T'}


def diff_text(a, b, depth=5):
    return f'computed: {show(a, depth)[:1200]}\nrequired: {show(b, depth)[:1200]}'


def equal_cex(a, b, pc=TRUE, nanfree=True):
    """Description of a case in which both differ."""
    for g, x in pairs(a):
        for h, y in pairs(b):
            if x is not y and sat(g & h & pc, nanfree) and \
                    not same_leaf(x, y, g & h & pc, nanfree):
                return (f'case: {showb(constrain(g & h, pc), 4)[:800]}\n'
                        f'computed: {show(x, 6)[:800]}\n'
                        f'required: {show(y, 6)[:800]}')
    return diff_text(a, b)


def where(eng, ev):
    m = ev.func.split(':')[0]
    import os
    p = eng.paths.get(m, m)
    if p.startswith(eng.repo):
        p = os.path.relpath(p, eng.repo)
    return f'{p}:{getattr(ev.node, "lineno", "?")} in {ev.func.split(":")[-1]}'


def loc(eng, qual):
    """file:line of a function or method 'mod.Class.meth' / 'mod:func'."""
    for k, fi in eng.funcs.items():
        if fi.qual == qual or fi.qual.replace(':', '.') == qual:
            return f'{fi.mod.replace(".", "/")}.py:{fi.node.lineno} in ' \
                   f'{fi.qual.split(":")[-1]}'
    return qual


# --------------------------------------------------------------------------
# views of an optimizer run
class Iter:
    """One iteration of the main loop of an analysed run."""

    def __init__(self, r):
        self.r = r
        self.eng = e = r.eng
        if r.main is None:
            raise AnalysisError('no loop calls trust_region')
        self.L = L = r.main
        if L.ends is None or L.head is None:
            raise AnalysisError('main loop has no back edge')
        self.head, self.end = L.head, L.ends
        lid = L.id
        self.trs = [x for x in r.events if x.kind == 'trust_region'
                    and lid in x.loops]
        self.evals = [x for x in r.events if x.kind == 'usercall'
                      and lid in x.loops]
        self.init_evals = [x for x in r.events if x.kind == 'usercall'
                           and lid not in x.loops]

    def h(self, name):
        return self.field(self.head, name)

    def e(self, name):
        return self.field(self.end, name)

    def field(self, st, name, oid=None):
        oid = self.r.oid if oid is None else oid
        v = st.get(oid, name)
        if v is None or v is H.ABSENT:
            raise AnalysisError(f'optimizer has no field {name}')
        return self.eng.content(v, st)

    def same(self, name):
        """The field keeps its value over the iteration (term equality)."""
        return self.h(name) is self.e(name)

    def prefix(self):
        return self.trs[0].data['prefix']

    def sp(self, name):
        r = H.STEP_RANKS[name]
        return sym(f'{self.prefix()}.{name}', rank=r, notnone=True)

    def ev_model(self, ev, st=None):
        """(fval, grad, hess, res, sres) the objective output stands for."""
        e = self.eng
        t = ev.data['result']
        st = st or self.end
        n = 2 if e.config.get('resfun') else self.nargout()
        items = [e.content(v, st) for v in H.ext.uret_items(
            e, t, n, st.fork())] if False else uitems(e, t, n)
        if e.config.get('resfun'):
            r_, J = items
            f = spec(e, st, 'return 0.5 * r.T.dot(r), r.T.dot(J), J.T.dot(J)',
                     r=alloc(e, st.fork(), r_) if False else box(e, st, r_),
                     J=box(e, st, J))
            f = [x for x in f.args[0]]
            return f[0], f[1], f[2], r_, J
        if n == 3:
            return items[0], items[1], items[2], None, None
        return items[0], items[1], None, None, None

    def nargout(self):
        return NARGOUT.get(self.r.name, 3)


NARGOUT = {n: 2 for n in ('BFGS', 'DFP', 'Broyden', 'SR1', 'BG', 'BB')}


def box(eng, st, t):
    """Engine value in st for a term (allocated in place)."""
    if rank(t):
        return eng.alloc(st, 'arr', f={'c': t}, label='spec')
    return t


def uitems(eng, t, k):
    ranks = {3: (0, 1, 2), 2: (0, 1)}.get(k)
    if k == 2 and eng.config.get('resfun'):
        ranks = (1, 2)
    return [mk('call', 'uitem', t, num(i), num(ranks[i])) for i in range(k)]


_runs = {}


def run(name=None, iterative='BFGS', repo='/repo', **kw):
    k = (name, iterative, repo, tuple(sorted(kw.items())))
    if k not in _runs:
        r = H.optimizer(name, iterative, repo=repo, **kw)
        r.name = name
        _runs[k] = r
    return _runs[k]


ALL = [None] + H.SCHEMES


def label(name):
    return name or 'no scheme'
