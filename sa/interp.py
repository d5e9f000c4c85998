"""Abstract interpreter that turns Python source into a value-flow graph.

The analysed program is never imported or executed.  Every function is
abstracted once per calling context into (heap effect, value, events); joins
build case tables, loops are solved by a fixpoint over the set of varying
cells with optimistic congruence classes (Alpern-Wegman-Zadeck style value
numbering), after which one generic pass is recorded.
"""

import ast
import copy
import os

from .terms import *  # noqa: F401,F403
from .terms import T, B, mk


class AnalysisError(Exception):
    pass


class Obj:
    __slots__ = ('kind', 'cls', 'f', 'label', 'meta')

    def __init__(self, kind, cls=None, f=None, label='', meta=None):
        self.kind = kind
        self.cls = cls
        self.f = f if f is not None else {}
        self.label = label
        self.meta = meta or {}

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.f), self.label, self.meta)


class State:
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc=TRUE):
        self.heap = heap
        self.pc = pc

    def fork(self, g=TRUE):
        return State(dict(self.heap), self.pc & g)

    @property
    def dead(self):
        return self.pc is FALSE

    def get(self, oid, key):
        return self.heap[oid].f.get(key, ABSENT)

    def set(self, oid, key, val):
        o = self.heap[oid]
        if o.f.get(key) is val:
            return
        o = o.copy()
        o.f[key] = val
        self.heap[oid] = o


class Event:
    __slots__ = ('kind', 'pc', 'node', 'func', 'ctx', 'loops', 'tries',
                 'data', 'heap', 'seq', 'stack')

    def __repr__(self):
        return (f'<{self.kind} {self.func}:{getattr(self.node, "lineno", 0)}'
                f' {self.data}>')


class FuncInfo:
    def __init__(self, node, mod, qual, cls):
        self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
        self.isgen = None


class ClassInfo:
    def __init__(self, qual, node, mod, bases, ext):
        self.qual, self.node, self.mod = qual, node, mod
        self.bases, self.ext = bases, ext
        self.members = []  # enum members


class Frame:
    def __init__(self, func, env, ctx):
        self.func, self.env, self.ctx = func, env, ctx
        self.rets = []
        self.brk = []
        self.cont = []
        self.yields = None
        self.globals = set()
        self.nonlocals = {}
        self.exc = None
        self.closure = False


class Loop:
    """Record of one loop (recorded pass)."""

    def __init__(self):
        self.id = None
        self.node = None
        self.func = None
        self.kind = None
        self.entry = None  # State before
        self.head = None  # State at generic head
        self.body = None  # State at body start
        self.ends = None  # merged State at back edge
        self.exits = None
        self.rep = {}
        self.varying = set()
        self.pc = None
        self.bounded = None
        self.depth = 0


class Ref:
    pass


def ref(oid):
    return mk('ref', oid)


SAFE_EXT = ('numpy.', 'builtins.', 'math.', 'scipy.sparse.', 'copy.',
            'time.', 'logging.', 'collections.', 'functools.', 'operator.')

EXC_PARENTS = {
    'RuntimeError': ['Exception'],
    'NotImplementedError': ['RuntimeError', 'Exception'],
    'RecursionError': ['RuntimeError', 'Exception'],
    'ValueError': ['Exception'],
    'UnicodeError': ['ValueError', 'Exception'],
    'TypeError': ['Exception'],
    'KeyError': ['LookupError', 'Exception'],
    'IndexError': ['LookupError', 'Exception'],
    'LookupError': ['Exception'],
    'AttributeError': ['Exception'],
    'AssertionError': ['Exception'],
    'ZeroDivisionError': ['ArithmeticError', 'Exception'],
    'FloatingPointError': ['ArithmeticError', 'Exception'],
    'OverflowError': ['ArithmeticError', 'Exception'],
    'ArithmeticError': ['Exception'],
    'StopIteration': ['Exception'],
    'LinAlgError': ['ValueError', 'Exception'],
    'OSError': ['Exception'],
    'Exception': ['BaseException'],
    'BaseException': [],
    'Warning': ['Exception'],
    'UserWarning': ['Warning', 'Exception'],
    'KeyboardInterrupt': ['BaseException'],
}


class Engine:
    def __init__(self, repo='/repo', pkg='fides', config=None):
        self.repo = repo
        self.pkg = pkg
        self.mods = {}
        self.funcs = {}  # node key -> FuncInfo
        self.classes = {}
        self.nodes = {}
        self.events = []
        self.loops = []
        self.dry = 0
        self.trystack = []
        self.ctxstack = []
        self.loopstack = []
        self.callstack = []
        self.nalloc = 0
        self.nseq = 0
        self.hooks = {}
        self.exthooks = {}
        self.splats = {}
        self.rewrites = {}
        self.rewritten = []
        self.ghosts = {}
        self.raises = []
        self.unknown = []
        self.base_oids = set()
        self.visited = set()
        self.ncalls = 0
        self.config = config or {}
        self.maxdepth = 60
        self.notes = []
        from . import ext

        self.ext = ext
        self.base = State({})
        self._load()

    # ------------------------------------------------------------------ load
    def _load(self):
        d = os.path.join(self.repo, self.pkg)
        self.paths = {}
        for root, _, files in os.walk(d):
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(root, f), self.repo)
                    m = rel[:-3].replace(os.sep, '.')
                    if m.endswith('.__init__'):
                        m = m[: -len('.__init__')]
                    self.paths[m] = os.path.join(root, f)
        self.asts = {}
        for m, p in self.paths.items():
            with open(p) as fh:
                src = fh.read()
            self.asts[m] = ast.parse(src, p)
        for m in sorted(self.paths):
            self.load_module(m)
        self.base_oids = set(self.base.heap)

    def load_module(self, m):
        if m in self.mods:
            return self.mods[m]
        env = ('mod', m)
        self.mods[m] = env
        self.base.heap[env] = Obj('env', f={}, label=m)
        fr = Frame(FuncInfo(self.asts[m], m, m + ':<module>', None), env,
                   ('mod', m))
        self.base.set(env, '__name__', const(m))
        self.dry += 1
        st = self.exec_block(self.asts[m].body, self.base, fr)
        self.dry -= 1
        if st is not None and st is not self.base:
            self.base.heap = st.heap
        return env

    # ---------------------------------------------------------------- alloc
    def alloc(self, st, kind, cls=None, f=None, label='', meta=None):
        self.nalloc += 1
        oid = (label or kind) + '#' + str(self.nalloc)
        st.heap[oid] = Obj(kind, cls, f, label, meta)
        return ref(oid)

    def wrap(self, st, t, label='arr'):
        """Value of a fresh result with content t."""
        r = rank(t)
        if r is None and t.op in ('lin', 'prod', 'ew', 'gather', 'setitem',
                                  'abs', 'tofloat', 'min', 'max'):
            r = 1
        if r:
            return self.alloc(st, 'arr', f={'c': t}, label=label)
        return t

    def obj(self, v, st):
        if v.op != 'ref':
            return None
        o = st.heap.get(v.args[0])
        return o if o is not None else self.ghosts.get(v.args[0])

    def content(self, v, st):
        """Pure content of a value (arrays are read)."""
        if v.op == 'ref':
            o = self.obj(v, st)
            if o is None:
                raise KeyError(v.args[0])
            if o.kind == 'arr':
                return o.f['c']
            if o.kind == 'view':
                return self.view_content(o, st)
            if o.kind == 'list':
                segs = o.f['items'].args[0]
                if all(g is TRUE and x.op not in ('splat', 'splatvar',
                                                  'mulist')
                       for g, x in segs):
                    return tup(*[self.content(x, st) for _, x in segs])
                return o.f['items']
            if o.kind == 'set':
                return o.f['v']
            return v
        if v.op == 'cases':
            if any(l.op in ('ref', 'tuple') for _, l in v.args[0]):
                return mkcases(
                    [(g, self.content(l, st)) for g, l in v.args[0]])
            return simplify(v, st.pc)
        if v.op == 'tuple':
            return tup(*[self.content(x, st) for x in v.args[0]])
        if v.op == 'b':
            return simplify(v, st.pc)
        return v

    def view_content(self, o, st):
        b = self.content(o.f['base'], st)
        if o.meta['vk'] == 'T':
            return transpose(b)
        if o.meta['vk'] == 'same':
            return b
        if o.meta['vk'] == 'fn':
            return o.meta['read'](b)
        return self.getitem_content(b, o.f['key'])

    # -------------------------------------------------------------- events
    def event(self, kind, st, node, **data):
        if self.dry:
            return None
        e = Event()
        e.kind = kind
        e.pc = st.pc
        e.node = node
        e.func = self.callstack[-1].func.qual if self.callstack else ''
        e.stack = tuple(
            (f.func.qual) for f in self.callstack)
        e.ctx = tuple(self.ctxstack)
        e.loops = tuple(self.loopstack)
        e.tries = tuple(t['types'] for t in self.trystack)
        e.data = data
        e.heap = None
        e.seq = len(self.events)
        self.events.append(e)
        return e

    def snap(self, e, st):
        if e is not None:
            e.heap = dict(st.heap)

    def where(self, node, func=None):
        f = func or (self.callstack[-1].func.qual if self.callstack else '')
        mod = f.split(':')[0]
        return f'{mod}:{getattr(node, "lineno", "?")} ({f})'

    # --------------------------------------------------------------- merge
    def merge(self, states):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        total = FALSE
        for s in states:
            total = total | s.pc
        gs = [constrain(s.pc, total) for s in states]
        heap = {}
        first = states[0].heap
        oids = dict.fromkeys(first)
        for s in states[1:]:
            for o in s.heap:
                if o not in oids:
                    oids[o] = None
        for oid in oids:
            objs = [s.heap.get(oid) for s in states]
            pres = [o for o in objs if o is not None]
            if all(o is pres[0] for o in pres):
                heap[oid] = pres[0]
                continue
            idx = [i for i, o in enumerate(objs) if o is not None]
            if len(idx) < len(objs):
                sub = FALSE
                for i in idx:
                    sub = sub | gs[i]
                ggs = [constrain(gs[i], sub) for i in idx]
            else:
                ggs = gs
            heap[oid] = self.merge_obj([(g, objs[i])
                                        for g, i in zip(ggs, idx)])
        return State(heap, total)

    def merge_obj(self, pairs):
        o0 = pairs[0][1]
        res = Obj(o0.kind, o0.cls, {}, o0.label, o0.meta)
        keys = dict.fromkeys(o0.f)
        for _, o in pairs[1:]:
            for k in o.f:
                keys.setdefault(k)
        for k in keys:
            vals = [(g, o.f.get(k, ABSENT)) for g, o in pairs]
            v0 = vals[0][1]
            if all(v is v0 for _, v in vals):
                res.f[k] = v0
            elif o0.kind == 'list' and k == 'items':
                res.f[k] = self.merge_segs(vals)
            else:
                res.f[k] = mkcases(vals)
        return res

    def merge_segs(self, vals):
        seqs = [v.args[0] for _, v in vals]
        n = 0
        while all(len(s) > n for s in seqs) and all(
            s[n] == seqs[0][n] for s in seqs
        ):
            n += 1
        out = list(seqs[0][:n])
        # identical suffix items in every branch merge into one item
        rests = [s[n:] for s in seqs]
        if len({len(r) for r in rests}) == 1 and rests[0] and all(
            all(g is TRUE for g, _ in r) for r in rests
        ):
            for i in range(len(rests[0])):
                out.append((TRUE, mkcases(
                    [(g, r[i][1]) for (g, _), r in zip(vals, rests)])))
        else:
            for (g, _), r in zip(vals, rests):
                for gg, x in r:
                    out.append((g & gg, x))
        return mk('segs', tuple(out))

    def branch(self, st, g, f1, f2):
        """Evaluate f1/f2 under guard g and merge into st; returns value."""
        pc = st.pc
        g = constrain(g, pc)
        if g is TRUE or not sat(pc & ~g):
            return f1(st)
        if g is FALSE or not sat(pc & g):
            return f2(st)
        s1, s2 = st.fork(g), st.fork(~g)
        v1 = f1(s1)
        v2 = f2(s2)
        return self.join(st, [(s1, v1), (s2, v2)])

    def join(self, st, pairs):
        live = [(s, v) for s, v in pairs if not s.dead]
        if not live:
            st.pc = FALSE
            return mk('undef')
        m = self.merge([s for s, _ in live])
        if len(live) == 1:
            v = live[0][1]
        else:
            v = mkcases([(constrain(s.pc, m.pc), v) for s, v in live])
        st.heap, st.pc = m.heap, m.pc
        return v

    def over_cases(self, v, st, f):
        """Apply f(leaf, state) to every leaf of v with forked states."""
        if v.op == 'cases':
            v = simplify(v, st.pc)
        if v.op != 'cases':
            return f(v, st)
        pairs = []
        for g, l in v.args[0]:
            s = st.fork(g)
            if s.dead or not sat(s.pc):
                continue
            pairs.append((s, f(l, s)))
        return self.join(st, pairs)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st is None or st.dead:
                return None
            st = self.exec_stmt(s, st, fr)
            if st is not None and st.dead:
                return None
        return st

    def exec_stmt(self, n, st, fr):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError(
                f'unsupported statement {type(n).__name__} at '
                f'{self.where(n, fr.func.qual)}')
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return st
        self.ev(n.value, st, fr)
        return st

    def s_Pass(self, n, st, fr):
        return st

    def s_Assign(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        if st.dead:
            return None
        for t in n.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            v = self.ev(n.value, st, fr)
            if st.dead:
                return None
            self.assign(n.target, v, st, fr)
        return st

    def s_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            key = self.ev(t.slice, st, fr)
            rhs = self.ev(n.value, st, fr)
            if st.dead:
                return None

            def upd(b, s):
                cur = self.getitem(b, key, s, n, forstore=True)
                o = self.obj(b, s)
                if o is not None and o.kind in ('arr', 'view'):
                    new = self.numop(n.op, self.content(cur, s),
                                     self.content(rhs, s), n)
                    self.setitem(b, key, new, s, n)
                    return NONE
                if self.inplace(cur, n.op, rhs, s, n):
                    return NONE
                new = self.binop(n.op, cur, rhs, s, n)
                self.setitem(b, key, new, s, n)
                return NONE

            self.over_cases(base, st, upd)
            return st
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            rhs = self.ev(n.value, st, fr)
            if st.dead:
                return None

            def upd(b, s):
                cur = self.getattr(b, t.attr, s, n)
                if self.inplace(cur, n.op, rhs, s, n):
                    return NONE
                self.setattr(b, t.attr, self.binop(n.op, cur, rhs, s, n),
                             s, n)
                return NONE

            self.over_cases(base, st, upd)
            return st
        cur = self.load_name(t.id, st, fr, n)
        rhs = self.ev(n.value, st, fr)
        if st.dead:
            return None
        if not self.inplace(cur, n.op, rhs, st, n):
            self.assign(t, self.binop(n.op, cur, rhs, st, n), st, fr)
        return st

    def inplace(self, cur, op, rhs, st, node):
        """Augmented assignment to mutable objects; True if done."""
        if cur.op == 'cases':
            leaves = [l for _, l in cur.args[0]]
            if any(self.is_mutable(l, st) for l in leaves):
                done = []

                def f(l, s):
                    done.append(self.inplace(l, op, rhs, s, node))
                    return NONE

                self.over_cases(cur, st, f)
                return all(done)
            return False
        o = self.obj(cur, st)
        if o is None:
            return False
        if o.kind in ('arr', 'view'):
            c = self.content(cur, st)
            r = self.numop(op, c, self.content(rhs, st), node)
            if rank(r) == 0 and rank(c):
                r = mul(r, mk('ones', rank(c)))
            self.write_arr(cur, r, st, node)
            return True
        if o.kind == 'list' and isinstance(op, ast.Add):
            self.list_extend(cur, rhs, st, node)
            return True
        if o.kind == 'set':
            st.set(cur.args[0], 'v', mk(
                'setop', type(op).__name__, o.f['v'], self.content(rhs, st)))
            self.event('setwrite', st, node, recv=cur)
            return True
        return False

    def is_mutable(self, v, st):
        o = self.obj(v, st)
        return o is not None and o.kind in ('arr', 'view', 'list', 'set')

    def write_arr(self, v, content, st, node):
        """Overwrite the content of an array value."""
        if v.op == 'cases':
            def f(l, s):
                self.write_arr(l, content, s, node)
                return NONE

            self.over_cases(v, st, f)
            return
        o = self.obj(v, st)
        if o is None:
            self.unknown_op('store into unknown value', node, st)
            return
        if o.kind == 'view':
            base = o.f['base']
            if o.meta['vk'] == 'T':
                self.write_arr(base, transpose(content), st, node)
            elif o.meta['vk'] == 'same':
                self.write_arr(base, content, st, node)
            elif o.meta['vk'] == 'fn':
                self.write_arr(base, o.meta['write'](
                    self.content(base, st), content), st, node)
            else:
                bc = self.content(base, st)
                self.write_arr(
                    base, scatter(bc, o.f['key'], content), st, node)
            return
        if o.kind != 'arr':
            self.unknown_op('array store into ' + o.kind, node, st)
            return
        if content is not o.f['c']:
            self.event('arrwrite', st, node, oid=v.args[0], old=o.f['c'],
                       new=content, user=bool(o.meta.get('user')), udt=bool(
                           o.meta.get('udt') or o.meta.get('user')))
        st.set(v.args[0], 'c', content)

    def unknown_op(self, what, node, st):
        self.event('unknown', st, node, what=what)
        if not self.dry:
            self.unknown.append((what, self.where(node)))

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            name = t.id
            if name in fr.globals:
                env = self.mods[fr.func.mod]
                self.event('globalwrite', st, t, name=name,
                           mod=fr.func.mod, value=v)
                st.set(env, name, v)
            elif name in fr.nonlocals:
                env = self.find_env(fr.nonlocals[name], name, st)
                st.set(env, name, v)
            else:
                st.set(fr.env, name, v)
            return
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)

            def f(b, s):
                self.setattr(b, t.attr, v, s, t)
                return NONE

            self.over_cases(base, st, f)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            key = self.ev(t.slice, st, fr)

            def f(b, s):
                self.setitem(b, key, v, s, t)
                return NONE

            self.over_cases(base, st, f)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(t.elts), st, t, star)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x,
                            st, fr)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
            return
        raise AnalysisError('unsupported target')

    def unpack(self, v, n, st, node, star=()):
        if v.op == 'cases':
            v = simplify(v, st.pc)
        if v.op == 'cases' and all(
            self.seq_items(l, st) is not None for _, l in v.args[0]
        ):
            cols = []
            for g, l in v.args[0]:
                it = self.seq_items(l, st)
                if len(it) != n:
                    return [mk('getitem', v, num(i)) for i in range(n)]
                cols.append((g, it))
            return [mkcases([(g, it[i]) for g, it in cols])
                    for i in range(n)]
        it = self.seq_items(v, st)
        if it is not None:
            if star:
                i = star[0]
                k = len(it) - (n - 1)
                mid = self.new_list(st, it[i:i + k])
                return it[:i] + [mid] + it[i + k:]
            if len(it) == n:
                return list(it)
            self.do_raise(st, node, 'ValueError', None)
            return [mk('undef')] * n
        if list(star) == [n - 1]:
            segs = self.iter_segs(v, st, node)
            if segs is not None and len(segs) >= n - 1 and all(
                    g is TRUE and x.op not in ('splat', 'splatvar', 'mulist')
                    for g, x in segs[:n - 1]):
                return [x for _, x in segs[:n - 1]] + [self.alloc(
                    st, 'list', f={'items': mk('segs', tuple(segs[n - 1:]))})]
        return [self.getitem(v, num(i), st, node) for i in range(n)]

    def seq_items(self, v, st):
        """Items of a sequence of known length, else None."""
        if v.op == 'tuple':
            return list(v.args[0])
        o = self.obj(v, st)
        if o is not None and o.kind == 'list':
            segs = o.f['items'].args[0]
            if all(g is TRUE and x.op not in ('splat', 'splatvar', 'mulist')
                   for g, x in segs):
                return [x for _, x in segs]
        return None

    def s_Return(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        if not st.dead:
            fr.rets.append((st, v))
        return None

    def s_If(self, n, st, fr):
        c = self.ev(n.test, st, fr)
        if st.dead:
            return None
        g = self.truth(c, st)
        g = constrain(g, st.pc)
        if g is TRUE or not sat(st.pc & ~g):
            return self.exec_block(n.body, st, fr)
        if g is FALSE or not sat(st.pc & g):
            return self.exec_block(n.orelse, st, fr)
        s1, s2 = st.fork(g), st.fork(~g)
        return self.merge([self.exec_block(n.body, s1, fr),
                           self.exec_block(n.orelse, s2, fr)])

    def s_Assert(self, n, st, fr):
        g = self.truth(self.ev(n.test, st, fr), st)
        if st.dead:
            return None
        bad = st.fork(~g)
        if sat(bad.pc):
            self.do_raise(bad, n, 'AssertionError', None)
        st.pc = st.pc & g
        return st if not st.dead else None

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.set(fr.env, t.id, ABSENT)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                if b.op == 'ref':
                    st.set(b.args[0], t.attr, ABSENT)
            else:
                b = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                o = self.obj(b, st)
                if o is not None and o.kind == 'dict':
                    st.set(b.args[0], ('k', self.dkey(k)), ABSENT)
                    self.event('dictdel', st, n, recv=b, key=k)
                else:
                    self.unknown_op('del', n, st)
        return st

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            v = fr.exc
            name = v[0] if v else 'Exception'
            self.do_raise(st, n, name, v[1] if v else None, reraise=True)
            return None
        v = self.ev(n.exc, st, fr)
        if n.cause is not None:
            self.ev(n.cause, st, fr)
        if st.dead:
            return None

        def f(l, s):
            name, reraise = self.exc_name(l, s, fr)
            self.do_raise(s, n, name, l, reraise)
            s.pc = FALSE
            return NONE

        self.over_cases(v, st, f)
        return None

    def exc_name(self, v, st, fr):
        if v.op == 'call' and isinstance(v.args[0], str):
            return v.args[0].split('.')[-1], False
        if v.op == 'ext':
            return v.args[0].split('.')[-1], False
        if v.op == 'cls':
            return v.args[0], False
        if v.op == 'exc':
            return v.args[1], True
        o = self.obj(v, st)
        if o is not None and o.cls:
            return o.cls, False
        return 'unknown', False

    def exc_matches(self, name, types):
        """True / False / None (may)"""
        if types is None:
            return True
        anc = self.exc_ancestors(name)
        if any(t in anc for t in types):
            return True
        if name in ('unknown', '*'):
            return None
        return False

    def exc_ancestors(self, name):
        res = {name}
        short = name.split('.')[-1]
        res.add(short)
        if name in self.classes:
            for c in self.mro(name):
                res.add(c)
                res.add(c.split('.')[-1])
                ci = self.classes.get(c)
                if ci:
                    for e in ci.ext:
                        res |= self.exc_ancestors(e)
        if name != short and name.startswith('builtins.'):
            res |= self.exc_ancestors(short)
        for p in EXC_PARENTS.get(short, ['Exception'] if
                                 name not in self.classes else []):
            res |= {p}
            if p != short:
                res |= self.exc_ancestors(p)
        return res

    def do_raise(self, st, node, name, val, reraise=False, implicit=False):
        """Explicit raise in state st; st becomes dead."""
        if st.dead:
            return
        handled = False
        for t in reversed(self.trystack):
            if t['active']:
                for i, types in enumerate(t['types']):
                    mres = self.exc_matches(name, types)
                    if mres or (mres is None):
                        t['caught'].append((i, st.fork(), name, val))
                        if mres:
                            handled = True
                            break
                if handled:
                    break
                t['passed'].append((st.fork(), name, val, node))
        e = self.event('raise' if not implicit else 'implicit_raise', st,
                       node, exc=name, value=val, handled=handled,
                       reraise=reraise)
        self.snap(e, st)
        st.pc = FALSE

    def may_raise(self, st, node, what):
        """A call that might raise anything, inside a try."""
        if not any(t['active'] for t in self.trystack):
            return
        self.nseq += 1
        a = atom(mk('exc', what, node.lineno, node.col_offset,
                    len(self.callstack), tuple(self.loopstack)))
        bad = st.fork(a)
        for t in reversed(self.trystack):
            if not t['active']:
                continue
            for i, types in enumerate(t['types']):
                t['caught'].append((i, bad.fork(), '*', mk('exc', what, '*')))
                break
            if t['types'] and t['types'][0] is None:
                break
            if t['types'] and ('Exception' in t['types'][0]):
                break
        st.pc = st.pc & ~a

    def s_Try(self, n, st, fr):
        types = []
        for h in n.handlers:
            types.append(self.handler_types(h, st, fr))
        rec = {'types': types, 'caught': [], 'passed': [], 'active': True,
               'node': n}
        self.trystack.append(rec)
        try:
            s = self.exec_block(n.body, st, fr)
        finally:
            self.trystack.pop()
        if s is not None and n.orelse:
            s = self.exec_block(n.orelse, s, fr)
        outs = [s]
        for i, h in enumerate(n.handlers):
            cs = [c for c in rec['caught'] if c[0] == i]
            if not cs:
                continue
            names = {c[2] for c in cs}
            hs = self.merge([c[1] for c in cs])
            if hs is None:
                continue
            nm = names.pop() if len(names) == 1 else '*'
            val = mk('exc', n.lineno, nm, i)
            self.event('except', hs, h, types=types[i], names=nm)
            if h.name:
                hs.set(fr.env, h.name, val)
            old = fr.exc
            fr.exc = (nm, val)
            outs.append(self.exec_block(h.body, hs, fr))
            fr.exc = old
        m = self.merge(outs)
        if n.finalbody:
            # exceptional and return exits also run the final block
            if rec['passed']:
                for ps, name, val, node in rec['passed']:
                    self.exec_block(n.finalbody, ps, fr)
            if fr.rets:
                newrets = []
                for rs, rv in fr.rets:
                    rs2 = self.exec_block(n.finalbody, rs, fr)
                    if rs2 is not None:
                        newrets.append((rs2, rv))
                fr.rets = newrets
            if m is not None:
                m = self.exec_block(n.finalbody, m, fr)
        return m

    def handler_types(self, h, st, fr):
        if h.type is None:
            return None
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in elts:
            v = self.ev(e, st, fr)
            if v.op == 'ext':
                out.append(v.args[0].split('.')[-1])
            elif v.op == 'cls':
                out.append(v.args[0])
            elif v.op == 'tuple':
                for x in v.args[0]:
                    out.append(x.args[0].split('.')[-1])
            else:
                out.append('Exception')
        return tuple(out)

    def s_With(self, n, st, fr):
        k = 0
        for it in n.items:
            v = self.ev(it.context_expr, st, fr)
            if st.dead:
                break
            self.event('enter', st, n, mgr=v)
            self.ctxstack.append(v)
            k += 1
            if it.optional_vars is not None:
                bound = v
                o = self.obj(v, st)
                if o is not None and o.kind == 'inst' and \
                        self.lookup_class(o.cls, '__enter__') is not None:
                    bound = self.call_method(v, '__enter__', [], {}, st, n)
                self.assign(it.optional_vars, bound, st, fr)
        s = self.exec_block(n.body, st, fr) if not st.dead else None
        for _ in range(k):
            mgr = self.ctxstack.pop()
            if s is not None:
                self.event('exit', s, n, mgr=mgr)
        return s

    def s_Global(self, n, st, fr):
        fr.globals.update(n.names)
        return st

    def s_Nonlocal(self, n, st, fr):
        for x in n.names:
            fr.nonlocals[x] = st.heap[fr.env].meta.get('parent')
        return st

    def s_Import(self, n, st, fr):
        for a in n.names:
            name = a.name
            if a.asname:
                v = self.import_mod(name)
                st.set(fr.env, a.asname, v)
            else:
                st.set(fr.env, name.split('.')[0],
                       self.import_mod(name.split('.')[0]))
        return st

    def import_mod(self, name):
        if name in self.paths:
            self.load_module(name)
            return mk('mod', name)
        return mk('ext', name)

    def s_ImportFrom(self, n, st, fr):
        m = n.module or ''
        if n.level:
            parts = fr.func.mod.split('.')
            ispkg = self.paths.get(fr.func.mod, '').endswith('__init__.py')
            up = n.level - (1 if ispkg else 0)
            base = parts[: len(parts) - up] if up else parts
            m = '.'.join(base + ([m] if m else []))
        for a in n.names:
            nm = a.asname or a.name
            if m in self.paths:
                env = self.load_module(m)
                if m + '.' + a.name in self.paths and \
                        st.get(env, a.name) is ABSENT:
                    self.load_module(m + '.' + a.name)
                    v = mk('mod', m + '.' + a.name)
                else:
                    v = (st if env in st.heap else self.base).get(env, a.name)
                    if v is ABSENT:
                        v = self.ext.ext_attr(self, m + '.' + a.name)
                if a.name == '*':
                    for k, x in st.heap[env].f.items():
                        if not k.startswith('_'):
                            st.set(fr.env, k, x)
                    continue
            else:
                v = self.ext.ext_attr(self, m + '.' + a.name)
            st.set(fr.env, nm, v)
        return st

    def s_FunctionDef(self, n, st, fr):
        v = self.make_func(n, st, fr)
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st, fr)
            v = self.decorate(dv, v, st, n)
        st.set(fr.env, n.name, v)
        return st

    def decorate(self, dv, v, st, n):
        if dv.op == 'ext':
            nm = dv.args[0].split('.')[-1]
            if nm in ('property', 'cached_property'):
                return mk('property', v)
            if nm == 'staticmethod':
                return mk('staticmethod', v)
            if nm == 'classmethod':
                return mk('classmethod', v)
            if nm in ('abstractmethod', 'wraps', 'overload', 'final'):
                return v
            if nm in ('lru_cache', 'cache'):
                return mk('cached', v)
            return mk('decorated', dv, v)
        if dv.op == 'call':
            nm = str(dv.args[0]).split('.')[-1]
            if nm in ('wraps',):
                return v
            if nm in ('lru_cache',):
                return mk('cached', v)
            if nm == 'errstate':
                return v
            return mk('decorated', dv, v)
        if dv.op == 'propset':
            return dv.args[0]
        if dv.op in ('func', 'cls', 'bm'):
            return self.call(dv, [v], {}, st, n)
        return mk('decorated', dv, v)

    def make_func(self, n, st, fr, name=None, cls=None):
        key = id(n)
        if key not in self.funcs:
            nm = getattr(n, 'name', '<lambda>')
            qual = fr.func.qual
            if fr.func.node is self.asts.get(fr.func.mod):
                qual = fr.func.mod + ':' + nm
            else:
                qual = qual + '.' + nm
            self.funcs[key] = FuncInfo(n, fr.func.mod, qual,
                                       cls or getattr(fr, 'cls', None))
            self.nodes[key] = n
        a = n.args
        defs = tuple(self.ev(d, st, fr) for d in a.defaults)
        kwdefs = tuple(
            self.ev(d, st, fr) if d is not None else ABSENT
            for d in a.kw_defaults)
        fr.closure = True
        return mk('func', key, fr.env, defs, kwdefs)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        if fr.func.node is self.asts.get(fr.func.mod):
            qual = fr.func.mod + '.' + n.name
        else:
            qual = fr.func.qual.replace(':', '.') + '.' + n.name
        bases, extb = [], []
        for b in n.bases:
            v = self.ev(b, st, fr)
            if v.op == 'cls':
                bases.append(v.args[0])
            elif v.op == 'ext':
                extb.append(v.args[0])
            else:
                extb.append('unknown')
        ci = ClassInfo(qual, n, fr.func.mod, bases, extb)
        self.classes[qual] = ci
        oid = ('cls', qual)
        st.heap[oid] = Obj('cls', qual, {}, qual)
        isenum = self.is_enum(qual)
        env = ('clsenv', qual)
        st.heap[env] = Obj('env', f={}, label=qual, meta={'parent': fr.env})
        f2 = Frame(FuncInfo(n, fr.func.mod,
                            fr.func.mod + ':' + qual[len(fr.func.mod) + 1:],
                            qual), env, fr.ctx)
        f2.cls = qual
        # methods see the enclosing scope, not the class body
        for s in n.body:
            st2 = self.exec_stmt_class(s, st, f2, fr, qual)
            if st2 is not None:
                st = st2
        for k, v in list(st.heap[env].f.items()):
            if isenum and not k.startswith('_') and v.op not in (
                    'func', 'property', 'staticmethod', 'classmethod'):
                m = mk('enum', qual + '.' + k, v)
                ci.members.append(m)
                v = m
            st.set(oid, k, v)
        v = mk('cls', qual)
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st, fr)
            nm = ''
            if dv.op == 'ext':
                nm = dv.args[0].split('.')[-1]
            elif dv.op == 'call':
                nm = str(dv.args[0]).split('.')[-1]
            if nm == 'dataclass':
                ci.dataclass = True
        st.set(fr.env, n.name, v)
        return st

    def exec_stmt_class(self, s, st, f2, fr, qual):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            key = id(s)
            if key not in self.funcs:
                self.funcs[key] = FuncInfo(
                    s, fr.func.mod, fr.func.mod + ':' +
                    qual[len(fr.func.mod) + 1:] + '.' + s.name, qual)
                self.nodes[key] = s
            defs = tuple(self.ev(d, st, f2) for d in s.args.defaults)
            kwdefs = tuple(self.ev(d, st, f2) if d is not None else ABSENT
                           for d in s.args.kw_defaults)
            v = mk('func', key, fr.env, defs, kwdefs)
            for d in reversed(s.decorator_list):
                dv = self.ev(d, st, f2)
                if isinstance(d, ast.Attribute) and d.attr == 'setter':
                    old = st.get(f2.env, s.name)
                    v = mk('property', old.args[0], v)
                    continue
                v = self.decorate(dv, v, st, s)
            st.set(f2.env, s.name, v)
            return st
        if isinstance(s, ast.AnnAssign) and s.value is None:
            o = st.heap[f2.env]
            ann = o.meta.setdefault('ann', [])
            if isinstance(s.target, ast.Name):
                ann.append(s.target.id)
            return st
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            st.heap[f2.env].meta.setdefault('ann', []).append(s.target.id)
        return self.exec_stmt(s, st, f2)

    def s_Break(self, n, st, fr):
        fr.brk[-1].append(st)
        return None

    def s_Continue(self, n, st, fr):
        fr.cont[-1].append(st)
        return None

    def s_Match(self, n, st, fr):
        v = self.ev(n.subject, st, fr)
        outs = []
        for c in n.cases:
            if st is None or st.dead:
                break
            g, binds = self.match_pat(c.pattern, v, st, fr)
            s1 = st.fork(g)
            if not s1.dead and sat(s1.pc):
                for nm, bv in binds:
                    s1.set(fr.env, nm, bv)
                if c.guard is not None:
                    gg = self.truth(self.ev(c.guard, s1, fr), s1)
                    fall = s1.fork(~gg)
                    s1.pc = s1.pc & gg
                    st2 = st.fork(~g)
                    outs.append(self.exec_block(c.body, s1, fr)
                                if not s1.dead else None)
                    st = self.merge([fall, st2])
                    continue
                outs.append(self.exec_block(c.body, s1, fr))
            st = st.fork(~g)
            if not sat(st.pc):
                st = None
        outs.append(st)
        return self.merge(outs)

    def match_pat(self, p, v, st, fr):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, [(p.name, v)] if p.name else []
            g, b = self.match_pat(p.pattern, v, st, fr)
            return g, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, st, fr), st), []
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, const(p.value), st), []
        if isinstance(p, ast.MatchOr):
            g = FALSE
            for q in p.patterns:
                g = g | self.match_pat(q, v, st, fr)[0]
            return g, []
        if isinstance(p, ast.MatchClass) and not p.patterns and \
                not p.kwd_patterns:
            return self.isinstance(v, self.ev(p.cls, st, fr), st), []
        if isinstance(p, ast.MatchSequence):
            it = self.seq_items(v, st)
            if it is not None and len(it) == len(p.patterns):
                g, bs = TRUE, []
                for q, x in zip(p.patterns, it):
                    gg, b = self.match_pat(q, x, st, fr)
                    g = g & gg
                    bs += b
                return g, bs
            if it is not None:
                return FALSE, []
        raise AnalysisError('unsupported match pattern')

    # ------------------------------------------------------------------ loops
    def s_While(self, n, st, fr):
        def head(s):
            v = self.ev(n.test, s, fr)
            return self.truth(v, s) if not s.dead else FALSE

        return self.loop(n, st, fr, head, None, n.body, n.orelse, 'while')

    def running_best(self, n, st, fr):
        """
        Rewrites loops that keep the best item seen,

            for v in items:
                if E(v) < E(best): best = v

        (possibly with E(best) kept in another variable) into

            best = min([best, *items], key=lambda v: E(v))

        which is defined by the same sequence of comparisons.
        """
        if n.orelse:
            return None
        src = ast.unparse
        over, index, start = n.iter, None, None
        if isinstance(n.target, ast.Name):
            v = n.target.id
            r = over
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and \
                    r.func.id == 'range' and not r.keywords and 1 <= len(
                        r.args) <= 2:
                m = r.args[-1]
                if not (isinstance(m, ast.Call) and src(m.func) == 'len'
                        and len(m.args) == 1
                        and isinstance(m.args[0], ast.Name)):
                    return None
                start = 0 if len(r.args) == 1 else src(r.args[0])
                index, over, v = v, m.args[0], '_item'
        elif isinstance(n.target, ast.Tuple) and len(
                n.target.elts) == 2 and all(
                isinstance(x, ast.Name) for x in n.target.elts) and \
                isinstance(over, ast.Call) and src(
                    over.func) == 'enumerate' and over.args:
            index, v = (x.id for x in n.target.elts)
            k = [*over.args[1:], *[x.value for x in over.keywords]]
            start = src(k[0]) if k else 0
            over = over.args[0]
            if str(start) == '1' and isinstance(over, ast.Subscript) and \
                    src(over.slice) == '1:':
                over = over.value
            elif str(start) != '0':
                return None
        else:
            return None
        if index is not None and (str(start) not in ('0', '1')
                                  or not isinstance(over, ast.Name)):
            return None

        class Items(ast.NodeTransformer):
            def visit_Subscript(self, x):
                if index is not None and src(x) == f'{over.id}[{index}]':
                    return ast.copy_location(ast.Name(v, x.ctx), x)
                return self.generic_visit(x)

        body = [Items().visit(copy.deepcopy(x)) for x in n.body]
        local = {}
        while len(body) > 1 and isinstance(body[0], ast.Assign) and len(
                body[0].targets) == 1 and isinstance(
                    body[0].targets[0], ast.Name):
            local[body[0].targets[0].id] = body[0].value
            body = body[1:]
        negated = False
        if len(body) == 1 and isinstance(body[0], ast.If):
            t, assigns = body[0].test, body[0].body
            if all(isinstance(x, ast.Pass) for x in assigns):
                assigns, negated = body[0].orelse, True
            elif body[0].orelse:
                return None
        elif len(body) > 1 and isinstance(body[0], ast.If) and len(
                body[0].body) == 1 and isinstance(
                    body[0].body[0], ast.Continue) and not body[0].orelse:
            t, assigns, negated = body[0].test, body[1:], True
        elif len(body) == 1 and isinstance(body[0], ast.Assign) and len(
                body[0].targets) == 1 and isinstance(
                    body[0].targets[0], ast.Name) and isinstance(
                        body[0].value, ast.IfExp):
            x = body[0].value
            b = body[0].targets[0].id
            keep = x.orelse if src(x.orelse) == b else x.body
            if src(keep) != b:
                return None
            t, negated = x.test, keep is x.body
            assigns = [ast.copy_location(ast.Assign(
                targets=body[0].targets,
                value=x.orelse if negated else x.body), x)]
        else:
            return None
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, negated = t.operand, not negated
        sets = {}
        for a in assigns:
            if not isinstance(a, ast.Assign) or len(a.targets) != 1:
                return None
            x = a.targets[0]
            if isinstance(x, ast.Tuple) and isinstance(a.value, ast.Tuple) \
                    and len(x.elts) == len(a.value.elts):
                ps = list(zip(x.elts, a.value.elts))
            else:
                ps = [(x, a.value)]
            for y, val in ps:
                if not isinstance(y, ast.Name) or y.id in sets:
                    return None
                sets[y.id] = val
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        lo, hi = t.left, t.comparators[0]
        if isinstance(t.ops[0], (ast.Gt, ast.GtE)):
            lo, hi = hi, lo
        elif not isinstance(t.ops[0], (ast.Lt, ast.LtE)):
            return None
        if negated:
            lo, hi = hi, lo
        item = [k for k, x in sets.items()
                if isinstance(x, ast.Name) and x.id == v]
        ixs = [k for k, x in sets.items() if index is not None
               and isinstance(x, ast.Name) and x.id == index]
        if len(item) > 1 or len(ixs) > 1 or not item + ixs:
            return None
        best = item[0] if item else None
        bix = ixs[0] if ixs else None

        def inline(x):
            if isinstance(x, ast.Name) and x.id in local:
                return inline(local[x.id])
            return x

        def names(x):
            return {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}

        def pure(x):
            return all(isinstance(y, (ast.Name, ast.Attribute, ast.Load,
                                      ast.Subscript, ast.Constant,
                                      ast.UnaryOp, ast.USub))
                       for y in ast.walk(x))

        E = inline(lo)
        if v not in names(E) or not pure(E) or names(E) & (
                set(sets) | set(local)) or index in names(E):
            return None
        if not pure(hi):
            return None

        def of(text):
            class Sub(ast.NodeTransformer):
                def visit_Name(self, x):
                    return ast.copy_location(ast.parse(
                        text, mode='eval').body, x) if x.id == v else x

            return Sub().visit(copy.deepcopy(E))

        bests = ([best] if best else []) + (
            [f'{over.id}[{bix}]'] if bix else [])
        Ebs = [of(x) for x in bests]

        def value(x, s):
            return self.content(self.ev(x, s, fr), s)

        track = None
        self.dry += 1
        try:
            s = st.fork()
            first = True
            if src(hi) not in [src(x) for x in Ebs]:
                if not isinstance(hi, ast.Name) or hi.id not in sets or \
                        ast.dump(inline(sets[hi.id])) != ast.dump(E):
                    return None
                track = hi.id
                h = value(hi, s)
                first = h is not INF
                if first and not any(value(x, s) is h for x in Ebs):
                    return None
            if set(sets) - {best, bix, track}:
                return None
            if not first and str(start) == '1':
                return None
            if bix and first:
                # the walk starts at the first item
                if numval(value(ast.parse(bix, mode='eval').body, s)) != 0:
                    return None
                if best and self.ev(ast.parse(
                        best, mode='eval').body, s, fr) is not self.ev(
                            ast.parse(f'{over.id}[0]', mode='eval').body,
                            s, fr):
                    return None
        finally:
            self.dry -= 1
        text = ''
        if bix:
            text += f'_values = [{src(E)} for {v} in {over.id}]\n'
            text += f'{bix} = _values.index(min(_values))\n'
            if best:
                text += f'{best} = {over.id}[{bix}]\n'
        else:
            its = f'[{best}, *{src(over)}]' if first else f'[*{src(over)}]'
            if index is not None and first and str(start) == '1':
                its = f'[{best}, *{src(over)}[1:]]'
            text += f'{best} = min({its}, key=lambda {v}: {src(E)})\n'
        if track:
            text += f'{track} = {src(of(best or bests[0]))}\n'
        out = ast.parse(text).body
        for x in out:
            for y in ast.walk(x):
                if hasattr(y, 'lineno'):
                    y.lineno = y.end_lineno = n.lineno
        self.rewritten.append((n, out))
        return out

    def s_For(self, n, st, fr):
        new = self.rewrites.get(id(n))
        if new is None and not isinstance(n, _For):
            new = self.running_best(n, st, fr)
            if new is not None:
                self.rewrites[id(n)] = new
        if new is not None:
            return self.exec_block(new, st, fr)
        it = self.ev(n.iter, st, fr)
        if st.dead:
            return None
        return self.for_over(n, it, st, fr, n.target, n.body, n.orelse)

    def for_over(self, n, it, st, fr, target, body, orelse):
        if it.op == 'cases':
            it = simplify(it, st.pc)
        if it.op == 'cases':
            segs0 = []
            ok = True
            for g, l in it.args[0]:
                s = self.iter_segs(l, st, n)
                if s is None:
                    ok = False
                    break
                segs0 += [(g & gg, x) for gg, x in s]
            segs = segs0 if ok else None
        else:
            segs = self.iter_segs(it, st, n)
        if segs is None:
            el = self.generic_element(it, st, n, fr)

            def head(s):
                return atom(mk('more', self.loopid(n, fr)))

            def bind(s):
                self.assign(target, el(s), s, fr)

            return self.loop(n, st, fr, head, bind, body, orelse, 'for',
                             iterable=it)
        fr.brk.append([])
        cur = st
        o0 = st.heap.get(it.args[0]) if it.op == 'ref' else None
        i0 = o0.f.get('items') if o0 is not None else None
        for g, x in segs:
            if cur is None or cur.dead:
                break
            if x.op in ('splat', 'splatvar', 'mulist'):
                cur = self.splat_loop(n, g, x, cur, fr, target, body)
                continue
            g = constrain(g, cur.pc)
            if g is FALSE or not sat(cur.pc & g):
                continue
            skip = cur.fork(~g) if sat(cur.pc & ~g) else None
            s1 = cur if skip is None else cur.fork(g)
            fr.cont.append([])
            self.assign(target, x, s1, fr)
            s1 = self.exec_block(body, s1, fr)
            conts = fr.cont.pop()
            cur = self.merge([s1, skip] + conts)
        brks = fr.brk.pop()
        if it.op == 'ref' and cur is not None and not cur.dead:
            o2 = cur.heap.get(it.args[0])
            if i0 is not None and o2 is not None and o2.kind == 'list' and \
                    i0 is not o2.f.get('items'):
                self.event('itergrown', cur, n, recv=it)
        if cur is not None and orelse:
            cur = self.exec_block(orelse, cur, fr)
        return self.merge([cur] + brks)

    def splat_loop(self, n, g, x, st, fr, target, body):
        """Generic loop over the unknown number of items of a splat."""
        key = (self.loopid(n, fr), x)

        def head(s):
            return atom(mk('more', key)) & g

        def bind(s):
            el = self.splat_element(x, s)
            self.assign(target, el, s, fr)

        # breaks leave the whole loop, so collect them for the caller
        res, brks = self.loop(n, st, fr, head, bind, body, [], 'for',
                              key=key, outer_breaks=True)
        fr.brk[-1].extend(brks)
        return res

    def splat_element(self, x, st):
        if x.op == 'splatvar':
            y = self.splats.get(x)
            if y is None:
                return mk('iter', x)
            return self.splat_element(y, st)
        if x.op == 'mulist':
            return mk('iter', x)
        segs = x.args[1]
        if len(segs) == 1:
            return segs[0][1]
        return mk('oneof', tuple(v for _, v in segs))

    def loopid(self, n, fr):
        return (fr.ctx, n.lineno, n.col_offset)

    def iter_segs(self, it, st, node):
        """List of (guard, item) for iterables of known structure."""
        if it.op == 'uret':
            k = self.uret_len(it, st)
            if k is not None:
                return [(TRUE, x) for x in
                        self.ext.uret_items(self, it, k, st)]
            return None
        if it.op == 'tuple':
            return [(TRUE, x) for x in it.args[0]]
        if it.op == 'cls' and self.is_enum(it.args[0]):
            return [(TRUE, m) for m in self.classes[it.args[0]].members]
        if it.op == 'const' and isinstance(it.args[0], str) and len(
                it.args[0]) < 20:
            return [(TRUE, const(c)) for c in it.args[0]]
        if it.op == 'call' and it.args[0] == 'range':
            vals = [numval(x) for x in it.args[1:]]
            if all(v is not None for v in vals):
                r = range(*[int(v) for v in vals])
                if len(r) <= 2:
                    return [(TRUE, num(i)) for i in r]
            return None
        o = self.obj(it, st)
        if o is None:
            return None
        if o.kind == 'list':
            return list(o.f['items'].args[0])
        if o.kind == 'dict' and not o.meta.get('opaque'):
            if o.f.get('?', ABSENT) is not ABSENT:
                return None
            out = []
            for k, v in o.f.items():
                if isinstance(k, tuple) and v is not ABSENT:
                    g = TRUE
                    if v.op == 'cases':
                        for gg, l in v.args[0]:
                            if l is ABSENT:
                                g = g & ~gg
                    out.append((g, k[1]))
            return out
        return None

    def uret_len(self, t, st):
        for k in (2, 3, 1, 4):
            if entails(st.pc, eqn(mk('len', t), num(k))):
                return k
        return None

    def generic_element(self, it, st, n, fr):
        lid = self.loopid(n, fr)
        o = self.obj(it, st)
        if o is not None and o.kind == 'set':
            self.event('setiter', st, n, recv=it)
        c = self.content(it, st)
        if c.op == 'call' and c.args[0] == 'zip':
            parts = [self.generic_element(x, st, n, fr) for x in c.args[1:]]
            return lambda s: tup(*[p(s) for p in parts])
        if c.op == 'call' and c.args[0] == 'enumerate':
            p = self.generic_element(c.args[1], st, n, fr)
            return lambda s: tup(mk('iter', lid, 'count'), p(s))
        if c.op == 'call' and c.args[0] == 'range':
            return lambda s: mk('mu', lid, 'index', 0)
        if o is not None and o.kind in ('arr', 'view'):
            r = rank(c)

            def el(s):
                t = mk('getitem', c, mk('mu', lid, 'index', 0))
                return self.wrap(s, t)

            return el
        return lambda s: mk('iter', lid, c)

    def loop(self, n, st, fr, head, bind, body, orelse, kind, key=None,
             iterable=None, outer_breaks=False):
        lid = key if key is not None else self.loopid(n, fr)
        S0 = st
        M, ends, rep = set(), {}, {}
        pre = {}

        def run(H, record):
            fr.brk.append([])
            fr.cont.append([])
            self.loopstack.append(lid)
            s = H.fork()
            g = head(s)
            exit_ = s.fork(~g)
            if not sat(exit_.pc):
                exit_ = None
            b = s.fork(g)
            bstart = None
            end = None
            if not b.dead and sat(b.pc):
                if bind is not None:
                    bind(b)
                bstart = b.fork()
                end = self.exec_block(body, b, fr)
            brks = fr.brk.pop()
            conts = fr.cont.pop()
            self.loopstack.pop()
            return exit_, self.merge([end] + conts), brks, bstart

        for _ in range(40):
            self.dry += 1
            nr = len(fr.rets)
            marks = [(len(t['caught']), len(t['passed']))
                     for t in self.trystack]
            ny = len(fr.yields) if fr.yields is not None else 0
            H, heads = self.havoc(S0, M, ends, rep, lid, fr)
            ex, E, brks, _ = run(H, False)
            del fr.rets[nr:]
            if fr.yields is not None:
                del fr.yields[ny:]
            for t, (a, p) in zip(self.trystack, marks):
                del t['caught'][a:]
                del t['passed'][p:]
            self.dry -= 1
            if E is None:
                break
            changed = self.diff_states(S0, H, E, M, ends, heads)
            if changed:
                # restart congruence classes
                rep = self.init_rep(S0, M, heads, H)
                continue
            rep2 = self.split_rep(rep, ends)
            if rep2 != rep:
                rep = rep2
                continue
            break
        else:
            raise AnalysisError('loop fixpoint did not converge at '
                                + self.where(n, fr.func.qual))
        H, heads = self.havoc(S0, M, ends, rep, lid, fr)
        L = Loop()
        L.id, L.node, L.func, L.kind = lid, n, fr.func.qual, kind
        L.entry, L.head = S0.fork(), H.fork()
        L.varying = set(M)
        L.rep = dict(rep)
        L.pc = S0.pc
        L.iterable = iterable
        L.heads = heads
        L.depth = len(self.loopstack)
        L.ctx = tuple(self.callstack)
        L.env = fr.env
        # make appended items of growing lists known to later readers
        ex, E, brks, bstart = run(H, True)
        L.body, L.ends, L.exits = bstart, E, ex
        L.brks = list(brks)
        L.endvals = dict(ends)
        L.nevents = len(self.events)
        self.bind_splats(H, E, lid, M)
        if not self.dry:
            self.loops.append(L)
        cur = ex
        if cur is not None and orelse:
            cur = self.exec_block(orelse, cur, fr)
        if outer_breaks:
            return cur, brks
        return self.merge([cur] + brks)

    # -- fixpoint machinery
    def leaves(self, v):
        return [l for _, l in v.args[0]] if v.op == 'cases' else [v]

    def havoc(self, S0, M, ends, rep, lid, fr):
        H = S0.fork()
        heads = {}  # path -> head oid
        made = {}

        def value(path, v0, depth=0):
            if path not in M:
                return v0
            r = rep.get(path, path)
            if r in made and depth >= 0:
                return made[r]
            v1 = ends.get(path)
            ls = self.leaves(v0) + (self.leaves(v1[0]) if v1 else [])
            v = build(path, r, v0, ls, v1, depth)
            made[r] = v
            return v

        def name(path):
            p = path[0]
            o = S0.heap.get(p[0])
            nm = str(p[1]) if p[1] != 'c' else (o.label if o else '?')
            if o is not None and o.kind != 'env' and o.label and p[1] != 'c':
                nm = f'{o.label}.{p[1]}'
            return nm + ''.join(
                '.' + str(x) if x != '[]' else '[]' for x in path[1:])

        def build(path, r, v0, ls, v1, depth):
            ls = [l for l in ls if l is not ABSENT]
            nn = [l for l in ls if l is not NONE]
            if len(nn) < len(ls) and nn:
                a = atom(mk('munone', lid, name(r)))
                return phi(a, NONE, build(path, r, v0, nn, v1, depth))
            heap1 = v1[1] if v1 else {}
            objs = []
            for l in nn:
                o = S0.heap.get(l.args[0]) or heap1.get(l.args[0]) if \
                    l.op == 'ref' else None
                objs.append(o)
            if nn and all(o is not None and o.kind in ('arr', 'view')
                          for o in objs):
                oid = ('head', lid, r)
                s0 = [l for l in self.leaves(v0) if l.op == 'ref']
                c0 = self.content(v0, S0) if s0 and len(s0) == len(
                    self.leaves(v0)) else None
                if c0 is None:
                    rk = None
                    for l in nn:
                        if l.args[0] in heap1:
                            rk = rank(self.content(l, State(heap1)))
                    c = mk('mu', lid, name(r) , rk)
                else:
                    c = value(path + ('[]',), c0, depth + 1)
                    if c is c0 and path + ('[]',) not in M:
                        c = c0
                H.heap[oid] = Obj('arr', f={'c': c}, label=name(r))
                heads[path] = oid
                return ref(oid)
            if nn and all(o is not None and o.kind == 'inst' for o in objs) \
                    and depth < 4:
                oid = ('head', lid, r)
                clss = {o.cls for o in objs}
                cls = clss.pop() if len(clss) == 1 else self.common_base(
                    [o.cls for o in objs])
                e0 = [S0.heap[l.args[0]] for l in self.leaves(v0)
                      if l.op == 'ref' and l.args[0] in S0.heap]
                ho = Obj('inst', cls, {}, name(r))
                H.heap[oid] = ho
                heads[path] = oid
                keys = []
                for o in e0 or objs:
                    for k in o.f:
                        if k not in keys:
                            keys.append(k)
                if e0:
                    for k in keys:
                        f0 = self.field_phi(v0, k, S0.heap)
                        ho.f[k] = value(path + (k,), f0, depth + 1)
                else:
                    for k in keys:
                        f1 = self.field_phi(v1[0], k, heap1)
                        ho.f[k] = build(path + (k,), path + (k,), ABSENT,
                                        self.leaves(f1), (f1, heap1),
                                        depth + 1)
                return ref(oid)
            if nn and all(o is not None and o.kind == 'list' for o in objs):
                oid = ('head', lid, r)
                H.heap[oid] = Obj('list', f={'items': mk('segs', (
                    (TRUE, mk('mulist', lid, name(r))),))}, label=name(r))
                heads[path] = oid
                return ref(oid)
            if nn and all(l.op == 'b' for l in nn):
                return bt(atom(mk('mub', lid, name(r))))
            if nn and all(l.op == 'tuple' for l in nn) and len(
                    {len(l.args[0]) for l in nn}) == 1:
                k = len(nn[0].args[0])
                out = []
                for i in range(k):
                    f0 = mkcases([(g, l.args[0][i]) for g, l in
                                  self.guards(v0)]) if all(
                        l.op == 'tuple' for l in self.leaves(v0)) else ABSENT
                    out.append(build(path + (i,), path + (i,), f0,
                                     [l.args[0][i] for l in nn], v1,
                                     depth + 1))
                return mk('tuple', tuple(out))
            rks = {rank(l) for l in nn if not (l.op == 'undef')}
            if len(rks) > 1 and None not in rks:
                rks = {max(rks)}
            rk = rks.pop() if len(rks) == 1 else None
            return mk('mu', lid, name(r), rk)

        for path in sorted((p for p in M if len(p) == 1), key=str):
            oid, k = path[0]
            v0 = S0.get(oid, k)
            o = H.heap[oid].copy()
            if k == 'items' and o.kind == 'list':
                segs0 = v0.args[0]
                e = ends.get(path)
                if e is None or (
                    e[0].op == 'segs' and e[0].args[0][:len(segs0)] == segs0
                ):
                    o.f[k] = mk('segs', segs0 + (
                        (TRUE, mk('splatvar', lid, str(oid))),))
                else:
                    o.f[k] = mk('segs', (
                        (TRUE, mk('mulist', lid, str(oid))),))
            elif o.kind == 'set':
                o.f[k] = mk('mu', lid, 'set:' + str(oid), None)
            else:
                o.f[k] = value(path, v0)
            H.heap[oid] = o
        return H, heads

    def guards(self, v):
        return v.args[0] if v.op == 'cases' else ((TRUE, v),)

    def field_phi(self, v, k, heap):
        if v.op == 'cases':
            return mkcases([
                (g, heap[l.args[0]].f.get(k, ABSENT)
                 if l.op == 'ref' and l.args[0] in heap else ABSENT)
                for g, l in v.args[0]])
        if v.op == 'ref' and v.args[0] in heap:
            return heap[v.args[0]].f.get(k, ABSENT)
        return ABSENT

    def common_base(self, quals):
        ms = [self.mro(q) for q in quals]
        for c in ms[0]:
            if all(c in m for m in ms):
                return c
        return quals[0]

    def diff_states(self, S0, H, E, M, ends, heads):
        changed = [False]
        seen = set()

        def leafcontent(v, st):
            try:
                return self.content(v, st)
            except (KeyError, AttributeError):
                return v

        def diff(path, vH, vE):
            vE = simplify(vE, E.pc) if vE.op in ('cases', 'b') else vE
            if vH is vE:
                ends[path] = (vE, E.heap)
                if path in M and vH.op == 'ref':
                    inner(path, vH, vE)
                return
            ends[path] = (vE, E.heap)
            if path not in M:
                M.add(path)
                changed[0] = True
                return
            inner(path, vH, vE)

        def inner(path, vH, vE):
            if (path, vE) in seen:
                return
            seen.add((path, vE))
            hoid = heads.get(path)
            if hoid is None:
                return
            ho = H.heap[hoid]
            if ho.kind == 'arr':
                c1 = leafcontent(vE, E)
                diff(path + ('[]',), ho.f['c'], c1)
            elif ho.kind == 'inst':
                for k in list(ho.f):
                    diff(path + (k,), ho.f[k],
                         self.field_phi(vE, k, E.heap))

        for oid in list(S0.heap):
            oH, oE = H.heap.get(oid), E.heap.get(oid)
            if oE is None or oH is None:
                continue
            if oH is oE and not any(
                    (oid, k) in heads or ((oid, k),) in heads
                    for k in oH.f):
                # unchanged object: nothing to record
                for k in oH.f:
                    if ((oid, k),) in M:
                        ends[((oid, k),)] = (oE.f[k], E.heap)
                continue
            keys = dict.fromkeys(oH.f)
            for k in oE.f:
                keys.setdefault(k)
            for k in keys:
                a, b = oH.f.get(k, ABSENT), oE.f.get(k, ABSENT)
                if oH.kind == 'env' and a is ABSENT:
                    # first bound inside of the loop: dead at the head
                    continue
                diff(((oid, k),), a, b)
        return changed[0]

    def init_rep(self, S0, M, heads, H):
        groups = {}
        rep = {}
        for p in sorted(M, key=lambda p: (len(p), str(p))):
            v0 = self.path_entry(S0, p)
            if v0 is None or v0 is ABSENT:
                rep[p] = p
                continue
            key = (v0, p[-1] == '[]')
            rep[p] = groups.setdefault(key, p)
        return rep

    def path_entry(self, S0, p):
        oid, k = p[0]
        v = S0.get(oid, k)
        for x in p[1:]:
            if v is ABSENT or v is None:
                return None
            if x == '[]':
                try:
                    v = self.content(v, S0)
                except KeyError:
                    return None
            else:
                v = self.field_phi(v, x, S0.heap)
        return v

    def split_rep(self, rep, ends):
        groups = {}
        out = {}
        for p in sorted(rep, key=lambda p: (len(p), str(p))):
            e = ends.get(p)
            key = (rep[p], e[0] if e else p)
            out[p] = groups.setdefault(key, p)
        return out

    def bind_splats(self, H, E, lid, M):
        if E is None:
            return
        for path in M:
            if len(path) != 1:
                continue
            oid, k = path[0]
            if k != 'items' or oid not in E.heap:
                continue
            hs = H.heap[oid].f['items'].args[0]
            es = E.heap[oid].f['items'].args[0]
            if hs and hs[-1][1].op == 'splatvar' and es[:len(hs)] == hs:
                self.splats[hs[-1][1]] = mk('splat', lid, es[len(hs):])

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        if st.dead:
            return mk('undef')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError(
                f'unsupported expression {type(n).__name__} at '
                f'{self.where(n, fr.func.qual)}')
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        v = n.value
        if isinstance(v, (bool, int, float, str)) or v is None:
            return const(v)
        if v is Ellipsis:
            return mk('const', '...')
        return mk('const', repr(v))

    def e_Name(self, n, st, fr):
        return self.load_name(n.id, st, fr, n)

    def load_name(self, name, st, fr, node):
        env = fr.env
        if name in fr.globals:
            env = self.mods[fr.func.mod]
        while env is not None:
            o = st.heap.get(env) or self.base.heap.get(env)
            if o is None:
                break
            v = o.f.get(name, ABSENT)
            if v is not ABSENT:
                if v.op == 'cases':
                    v = simplify(v, st.pc)
                return v
            env = o.meta.get('parent')
        env = self.mods.get(fr.func.mod)
        if env is not None:
            v = (st.heap.get(env) or self.base.heap[env]).f.get(name, ABSENT)
            if v is not ABSENT:
                return v
        return mk('ext', 'builtins.' + name)

    def find_env(self, env, name, st):
        while env is not None:
            o = st.heap[env]
            if name in o.f:
                return env
            env = o.meta.get('parent')
        raise AnalysisError('nonlocal ' + name)

    def e_Tuple(self, n, st, fr):
        return self.build_seq(n.elts, st, fr)

    def build_seq(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr)
                it = self.seq_items(v, st)
                if it is None:
                    segs = self.iter_segs(v, st, e)
                    if segs is not None and all(
                            g is TRUE and x.op not in (
                                'splat', 'splatvar', 'mulist')
                            for g, x in segs):
                        it = [x for _, x in segs]
                if it is None:
                    return self.list_from(elts, st, fr)
                out += it
            else:
                out.append(self.ev(e, st, fr))
        return mk('tuple', tuple(out))

    def list_from(self, elts, st, fr):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr)
                s = self.iter_segs(v, st, e)
                if s is None:
                    segs.append((TRUE, mk('splat', 'opaque', (
                        (TRUE, mk('iter', self.content(v, st))),))))
                else:
                    segs += s
            else:
                segs.append((TRUE, self.ev(e, st, fr)))
        return self.alloc(st, 'list', f={'items': mk('segs', tuple(segs))})

    def new_list(self, st, items):
        return self.alloc(st, 'list', f={
            'items': mk('segs', tuple((TRUE, x) for x in items))})

    def e_List(self, n, st, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.list_from(n.elts, st, fr)
        return self.new_list(st, [self.ev(e, st, fr) for e in n.elts])

    def e_Set(self, n, st, fr):
        v = mk('set0')
        for e in n.elts:
            v = setadd(v, self.content(self.ev(e, st, fr), st))
        return self.alloc(st, 'set', f={'v': v})

    def e_Dict(self, n, st, fr):
        r = self.alloc(st, 'dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v, st, fr)
                self.dict_update(r, src, st, n)
                continue
            kk = self.ev(k, st, fr)
            vv = self.ev(v, st, fr)
            if st.dead:
                break
            self.setitem(r, kk, vv, st, n, quiet=True)
        return r

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        if st.dead:
            return mk('undef')
        return self.binop(n.op, a, b, st, n)

    def binop(self, op, a, b, st, node):
        # containers
        for x in (a, b):
            o = self.obj(x, st)
            if o is not None and o.kind == 'list' and isinstance(
                    op, (ast.Add, ast.Mult)):
                return self.list_binop(op, a, b, st, node)
            if o is not None and o.kind == 'inst':
                nm = {ast.Add: '__add__', ast.Sub: '__sub__',
                      ast.Mult: '__mul__', ast.MatMult: '__matmul__'}.get(
                          type(op))
                if nm and x is a and self.lookup_class(o.cls, nm):
                    return self.call_method(a, nm, [b], {}, st, node)
            if o is not None and o.kind == 'set':
                return self.alloc(st, 'set', f={'v': mk(
                    'setop', type(op).__name__, self.content(a, st),
                    self.content(b, st))})
            if o is not None and o.kind == 'dict' and isinstance(
                    op, ast.BitOr):
                r = self.alloc(st, 'dict')
                self.dict_update(r, a, st, node)
                self.dict_update(r, b, st, node)
                return r
        if a.op == 'tuple' and b.op == 'tuple' and isinstance(op, ast.Add):
            return mk('tuple', a.args[0] + b.args[0])
        if isinstance(op, ast.Mult) and 'tuple' in (a.op, b.op):
            t, k = (a, b) if a.op == 'tuple' else (b, a)
            if k.op == 'num' and k.args[0].denominator == 1 and \
                    k.args[0] < 100:
                return mk('tuple', t.args[0] * int(k.args[0]))
        if isinstance(op, ast.BitOr) and all(
                x.op in ('cls', 'ext') or x.op == 'tuple' and all(
                    y.op in ('cls', 'ext') for y in x.args[0])
                for x in (a, b)):
            # union of types
            return mk('tuple', tuple(y for x in (a, b) for y in (
                x.args[0] if x.op == 'tuple' else (x,))))
        ca, cb = self.content(a, st), self.content(b, st)
        r = self.numop(op, ca, cb, node)
        return self.wrap(st, r)

    def list_binop(self, op, a, b, st, node):
        if isinstance(op, ast.Add):
            segs = []
            for x in (a, b):
                s = self.iter_segs(x, st, node)
                if s is None:
                    s = [(TRUE, mk('splat', 'opaque', (
                        (TRUE, mk('iter', self.content(x, st))),)))]
                segs += s
            return self.alloc(st, 'list', f={'items': mk('segs',
                                                         tuple(segs))})
        k = numval(self.content(b if self.obj(a, st) else a, st))
        src = a if self.obj(a, st) is not None else b
        s = self.iter_segs(src, st, node)
        if k is not None and s is not None and k < 20:
            return self.alloc(st, 'list', f={'items': mk(
                'segs', tuple(s) * int(k))})
        return mk('call', 'listmul', self.content(a, st),
                  self.content(b, st))

    def numop(self, op, a, b, node):
        isstr = any(
            x.op == 'fstr' or x.op == 'const' and isinstance(x.args[0], str)
            for x in (a, b))
        if isstr:
            if a.op == 'const' and b.op == 'const' and isinstance(
                    op, ast.Add):
                return const(a.args[0] + b.args[0])
            return mk('fstr', type(op).__name__, a, b)
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            k = numval(b)
            if k is not None:
                return powr(a, k)
            return ewfun('pow', a, b)
        if isinstance(op, ast.MatMult):
            return dot(a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if self.isbool(a) and self.isbool(b):
                x, y = tob(a), tob(b)
                return bt(x & y if isinstance(op, ast.BitAnd) else
                          x | y if isinstance(op, ast.BitOr) else
                          (x & ~y) | (~x & y))
            return ewfun(type(op).__name__, a, b)
        if isinstance(op, ast.Mod):
            x, y = numval(a), numval(b)
            if x is not None and y:
                return num(x % y)
            return ewfun('mod', a, b)
        if isinstance(op, ast.FloorDiv):
            x, y = numval(a), numval(b)
            if x is not None and y:
                return num(x // y)
            return ewfun('floordiv', a, b)
        return mk('call', 'op.' + type(op).__name__, a, b)

    def isbool(self, t):
        if t.op == 'b':
            return True
        if t.op in ('cases', 'ew'):
            return all(self.isbool(l) for _, l in t.args[0])
        return False

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if st.dead:
            return v
        if isinstance(n.op, ast.Not):
            return bt(~self.truth(v, st))
        c = self.content(v, st)
        if isinstance(n.op, ast.USub):
            return self.wrap(st, neg(c))
        if isinstance(n.op, ast.UAdd):
            return self.wrap(st, c)
        if isinstance(n.op, ast.Invert):
            if self.isbool(c):
                return self.wrap(st, bt(~tob(c)))
            return self.wrap(st, ewfun('invert', c))

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.ev(n.values[i], s, fr)
            if i == len(n.values) - 1 or s.dead:
                return v
            g = self.truth(v, s)
            # pure boolean results stay booleans
            if isand:
                return self.branch(s, g, lambda z: go(i + 1, z),
                                   lambda z: FALSET if v.op == 'b' else v)
            return self.branch(s, g,
                               lambda z: TRUET if v.op == 'b' else v,
                               lambda z: go(i + 1, z))

        return go(0, st)

    def e_IfExp(self, n, st, fr):
        g = self.truth(self.ev(n.test, st, fr), st)
        if st.dead:
            return mk('undef')
        return self.branch(st, g, lambda s: self.ev(n.body, s, fr),
                           lambda s: self.ev(n.orelse, s, fr))

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = None
        cur = left
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            rv = self.ev(r, st, fr)
            if st.dead:
                return mk('undef')
            b = self.compare(op, cur, rv, st, n)
            if i == len(n.ops) - 1 and res is None:
                return self.wrap(st, bt(b)) if b not in (
                    TRUE, FALSE) else bt(b)
            res = b if res is None else res & b
            cur = rv
        return bt(res)

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, st)
            return r if isinstance(op, ast.Is) else ~r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.in_(a, b, st, node)
            return r if isinstance(op, ast.In) else ~r
        if isinstance(op, ast.Eq):
            return self.eq(a, b, st)
        if isinstance(op, ast.NotEq):
            ca, cb = self.content(a, st), self.content(b, st)
            if ca is cb and ca.op not in ('const', 'num', 'enum', 'ref',
                                          'cls', 'tuple', 'b'):
                return isnan(ca)
            return ~self.eq(a, b, st)
        ca, cb = self.content(a, st), self.content(b, st)
        if isinstance(op, ast.Lt):
            return lt(ca, cb)
        if isinstance(op, ast.LtE):
            return le(ca, cb)
        if isinstance(op, ast.Gt):
            return lt(cb, ca)
        if isinstance(op, ast.GtE):
            return le(cb, ca)
        raise AnalysisError('compare')

    def eq(self, a, b, st):
        if a.op == 'cases' or b.op == 'cases':
            r = FALSE
            for g, x in self.guards(a):
                for h, y in self.guards(b):
                    k = g & h
                    if k is not FALSE:
                        r = r | (k & self.eq(x, y, st))
            return r
        ea = a.args[1] if a.op == 'enum' and self.is_strenum(a) else a
        eb = b.args[1] if b.op == 'enum' and self.is_strenum(b) else b
        if ea.op == 'enum' and eb.op == 'enum':
            return TRUE if ea is eb else FALSE
        oa, ob = self.obj(ea, st), self.obj(eb, st)
        if oa is not None and oa.kind == 'inst' or \
                ob is not None and ob.kind == 'inst':
            return TRUE if ea is eb else FALSE
        ca, cb = self.content(ea, st), self.content(eb, st)
        if ca.op == 'tuple' and cb.op == 'tuple':
            if len(ca.args[0]) != len(cb.args[0]):
                return FALSE
            r = TRUE
            for x, y in zip(ca.args[0], cb.args[0]):
                r = r & self.eq(x, y, st)
            return r
        if 'tuple' in (ca.op, cb.op):
            q = cb if ca.op == 'tuple' else ca
            if q.op in ('cls', 'ext', 'const', 'enum', 'num', 'fstr',
                        'func', 'lin'):
                return FALSE
        if ca.op in ('segs', 'tuple') or cb.op in ('segs', 'tuple'):
            return TRUE if ca is cb else atom(
                mk('eq', *sorted((ca, cb), key=lambda t: t.id)))
        nonnum = ('const', 'enum', 'cls', 'ext', 'fstr', 'func', 'ref')
        if ca.op in ('shape',) or cb.op in ('shape',):
            if ca is cb:
                return TRUE
            return atom(mk('eq', *sorted((ca, cb), key=lambda t: t.id)))
        if ca.op in nonnum or cb.op in nonnum:
            if ca is cb:
                return TRUE
            if is_const(ca) and is_const(cb) or (
                    ca.op in ('cls', 'ext') and cb.op in ('cls', 'ext')):
                return FALSE
            if NONE in (ca, cb):
                return self.is_(ca, cb, st)
            num_other = cb if ca.op in nonnum else ca
            if num_other.op in ('lin', 'prod', 'num', 'norm', 'vsum', 'ew'):
                return FALSE
            pt = SYMINFO.get(num_other.args[0], {}).get('pytypes') if \
                num_other.op == 'sym' else None
            if pt is not None and 'str' not in pt and (
                    (ca.op == 'const') or (cb.op == 'const')):
                return FALSE
            if num_other.op == 'sym' and SYMINFO.get(
                    num_other.args[0], {}).get('distinct') :
                return FALSE
            return atom(mk('eq', *sorted((ca, cb), key=lambda t: t.id)))
        return eqn(ca, cb)

    def is_strenum(self, t):
        q = t.args[0].rsplit('.', 1)[0]
        ext = []
        for c in self.mro(q):
            ext += self.classes[c].ext if c in self.classes else []
        return any(e in ('builtins.str', 'enum.StrEnum', 'builtins.int',
                         'enum.IntEnum')
                   for e in ext)

    def is_(self, a, b, st):
        if a.op == 'cases' or b.op == 'cases':
            r = FALSE
            for g, x in self.guards(a):
                for h, y in self.guards(b):
                    k = g & h
                    if k is not FALSE:
                        r = r | (k & self.is_(x, y, st))
            return r
        if a is b:
            return TRUE
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            if x.op in ('ref', 'num', 'const', 'lin', 'prod', 'b', 'enum',
                        'tuple', 'func', 'cls', 'ext', 'norm', 'vsum', 'bm',
                        'inf', 'nan', 'chain', 'ew', 'abs', 'outer', 'fstr',
                        'zeros', 'ones', 'eye', 'segs', 'argmin', 'set0',
                        'len', 'uret'):
                return FALSE
            if x.op == 'sym' and SYMINFO.get(x.args[0], {}).get('notnone'):
                return FALSE
            if x.op == 'sym' and 'pytypes' in SYMINFO.get(x.args[0], {}):
                return TRUE if 'NoneType' in SYMINFO[x.args[0]]['pytypes'] \
                    else FALSE
            if x.op == 'mu' and rank(x) is not None:
                return FALSE
            if x.op == 'call':
                return FALSE
            return atom(mk('isnone', x))
        if is_const(a) and is_const(b) or a.op == b.op == 'ref':
            return FALSE
        if 'cls' in (a.op, b.op) and a.op in ('cls', 'ext') and b.op in (
                'cls', 'ext'):
            return FALSE
        kinds = ('tuple', 'cls', 'ext', 'enum', 'const', 'num', 'ref', 'func',
                 'b', 'segs')
        if a.op != b.op and a.op in kinds and b.op in kinds:
            return FALSE
        if a.op == b.op == 'ext' and all(x.args[0].split('.')[0] in (
                'numbers', 'builtins', 'pathlib', 'collections')
                for x in (a, b)):
            return FALSE
        if TRUET in (a, b) or FALSET in (a, b):
            x = b if a in (TRUET, FALSET) else a
            if x.op == 'b' and rank(x) == 0:
                t = x.args[0]
                return t if TRUET in (a, b) else ~t
        return atom(mk('same', *sorted((a, b), key=lambda t: t.id)))

    def in_(self, a, b, st, node):
        if b.op == 'cases':
            r = FALSE
            for g, x in b.args[0]:
                r = r | (g & self.in_(a, x, st, node))
            return r
        o = self.obj(b, st)
        if o is not None and o.kind == 'dict':
            k = self.dkey(a)
            if o.meta.get('opaque'):
                return atom(mk('has', o.meta['opaque'], k))
            v = o.f.get(('k', k), ABSENT)
            if not is_const(k) and k.op != 'tuple':
                r = FALSE
                for kk, vv in o.f.items():
                    if isinstance(kk, tuple) and vv is not ABSENT:
                        r = r | self.eq(a, kk[1], st)
                return r
            if v.op == 'cases':
                r = FALSE
                for g, l in v.args[0]:
                    if l is not ABSENT:
                        r = r | g
                return r
            return FALSE if v is ABSENT else TRUE
        segs = self.iter_segs(b, st, node)
        if segs is not None and not any(
                x.op in ('splat', 'splatvar', 'mulist') for _, x in segs):
            r = FALSE
            for g, x in segs:
                r = r | (g & self.eq(a, x, st))
            return r
        if b.op == 'const' and a.op == 'const':
            return TRUE if str(a.args[0]) in str(b.args[0]) else FALSE
        if o is not None and o.kind == 'set':
            v = o.f['v']
            els = []
            while v.op == 'setadd':
                els.append(v.args[1])
                v = v.args[0]
            if v.op == 'set0':
                r = FALSE
                for x in els:
                    r = r | self.eq(a, x, st)
                return r
        return atom(mk('in', self.content(a, st), self.content(b, st)))

    def truth(self, v, st):
        """Truth value of a Python object."""
        if v.op == 'cases':
            r = FALSE
            for g, l in v.args[0]:
                r = r | (g & self.truth(l, st))
            return r
        if v.op == 'b':
            return constrain(v.args[0], st.pc)
        if v.op == 'num':
            return TRUE if v.args[0] else FALSE
        if v.op == 'const':
            return TRUE if v.args[0] else FALSE
        if v.op == 'tuple':
            return TRUE if v.args[0] else FALSE
        if v.op == 'enum':
            x = v.args[1]
            if self.is_strenum(v):
                return self.truth(x, st)
            return TRUE
        if v.op in ('func', 'bm', 'cls', 'ext', 'mod', 'inf', 'nan',
                    'property'):
            return TRUE
        if v.op in ('undef', 'absent'):
            return FALSE
        o = self.obj(v, st)
        if o is not None:
            if o.kind == 'inst':
                if self.lookup_class(o.cls, '__bool__') is not None:
                    return self.truth(
                        self.call_method(v, '__bool__', [], {}, st, None), st)
                if self.lookup_class(o.cls, '__len__') is not None:
                    return self.truth(
                        self.call_method(v, '__len__', [], {}, st, None), st)
                return TRUE
            if o.kind in ('list',):
                segs = o.f['items'].args[0]
                if any(g is TRUE and x.op not in (
                        'splat', 'splatvar', 'mulist') for g, x in segs):
                    return TRUE
                if not segs:
                    return FALSE
                if all(x.op not in ('splat', 'splatvar', 'mulist')
                       for _, x in segs):
                    return disj(*[g for g, _ in segs])
                return atom(mk('truth', o.f['items']))
            if o.kind == 'dict':
                if o.meta.get('opaque'):
                    return atom(mk('truth', o.meta['opaque']))
                ks = [x for k, x in o.f.items() if isinstance(k, tuple)]
                if any(x is not ABSENT and x.op != 'cases' for x in ks):
                    return TRUE
                if not ks:
                    return FALSE
                return atom(mk('truth', v))
            if o.kind == 'set':
                return ~tob(bt(eqn(mk('len', o.f['v']), ZERO)))
            if o.kind in ('arr', 'view'):
                c = self.content(v, st)
                if self.isbool(c):
                    return tob(c)
                return ~eqn(c, ZERO)
            return TRUE
        if v.op in ('lin', 'prod', 'norm', 'vsum', 'len', 'abs', 'min',
                    'max'):
            return ~eqn(v, ZERO)
        if v.op == 'sym' and 'truthy' in SYMINFO.get(v.args[0], {}):
            return TRUE if SYMINFO[v.args[0]]['truthy'] else FALSE
        if v.op == 'dictget':
            d = self.truth(v.args[2], st)
            return atom(mk('truth', v)) if d not in (TRUE,) or True else d
        return tob(v)

    def e_Attribute(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        if st.dead:
            return mk('undef')
        return self.over_cases(
            b, st, lambda l, s: self.getattr(l, n.attr, s, n))

    def e_Subscript(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        k = self.ev(n.slice, st, fr)
        if st.dead:
            return mk('undef')
        return self.over_cases(
            b, st, lambda l, s: self.getitem(l, k, s, n))

    def e_Slice(self, n, st, fr):
        return mk('slice', *[
            self.content(self.ev(x, st, fr), st) if x is not None else NONE
            for x in (n.lower, n.upper, n.step)])

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            x = self.ev(v, st, fr)
            parts.append(self.content(x, st))
        if all(p.op == 'const' for p in parts):
            return const(''.join(str(p.args[0]) for p in parts))
        return mk('fstr', 'f', *parts)

    def e_FormattedValue(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        if v.op == 'const' and n.format_spec is None:
            return const(str(v.args[0]))
        if v.op == 'ref':
            v = self.content(v, st)
        spec = ast.dump(n.format_spec) if n.format_spec else ''
        if v.op == 'cases' and len(v.args[0]) > 1:
            return mk('fmt', v, spec)
        return mk('fmt', v, spec)

    def e_Lambda(self, n, st, fr):
        return self.make_func(n, st, fr)

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        lst = fr.ylist
        self.list_append(lst, v, st, n)
        return NONE

    def e_YieldFrom(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.list_extend(fr.ylist, v, st, n)
        return NONE

    # comprehensions run as loops in a child scope
    def comp(self, n, st, fr, emit):
        fr2 = Frame(fr.func, ('comp', id(n), self.nalloc), fr.ctx)
        self.nalloc += 1
        fr2.globals = fr.globals
        fr2.exc = fr.exc
        st.heap[fr2.env] = Obj('env', label='comp', meta={'parent': fr.env})
        if hasattr(fr, 'ylist'):
            fr2.ylist = fr.ylist
        gens = n.generators
        fr2.rets = fr.rets

        def level(i):
            if i == len(gens):
                return [_Emit(emit, n)]
            g = gens[i]
            body = level(i + 1)
            for c in reversed(g.ifs):
                body = [_If(c, body, n)]
            return [_For(g.target, g.iter, body, n, g)]

        s = self.exec_block(level(0), st, fr2)
        fr.closure = fr.closure or fr2.closure
        if s is None:
            st.pc = FALSE
            return
        if not fr2.closure:
            s.heap.pop(fr2.env, None)
        st.heap, st.pc = s.heap, s.pc

    def s__Emit(self, n, st, fr):
        n.emit(st, fr)
        return st

    def s__If(self, n, st, fr):
        return self.s_If(n, st, fr)

    def s__For(self, n, st, fr):
        return self.s_For(n, st, fr)

    def e_ListComp(self, n, st, fr):
        r = self.new_list(st, [])

        def emit(s, f):
            self.list_append(r, self.ev(n.elt, s, f), s, n, quiet=True)

        self.comp(n, st, fr, emit)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, fr):
        r = self.alloc(st, 'set', f={'v': mk('set0')})

        def emit(s, f):
            v = self.content(self.ev(n.elt, s, f), s)
            o = s.heap[r.args[0]]
            s.set(r.args[0], 'v', setadd(o.f['v'], v))

        self.comp(n, st, fr, emit)
        return r

    def e_DictComp(self, n, st, fr):
        r = self.alloc(st, 'dict')

        def emit(s, f):
            k = self.ev(n.key, s, f)
            v = self.ev(n.value, s, f)
            self.setitem(r, k, v, s, n, quiet=True)

        self.comp(n, st, fr, emit)
        return r

    # ------------------------------------------------------------ lists/dicts
    def list_append(self, lst, v, st, node, quiet=False):
        def f(l, s):
            o = self.obj(l, s)
            if o is None or o.kind != 'list':
                self.unknown_op('append to non-list', node, s)
                return NONE
            s.set(l.args[0], 'items', mk('segs', o.f['items'].args[0]
                                         + ((TRUE, v),)))
            if not quiet:
                self.event('append', s, node, recv=l, value=v)
            return NONE

        self.over_cases(lst, st, f)

    def list_extend(self, lst, v, st, node):
        def f(l, s):
            o = self.obj(l, s)
            if o is None or o.kind != 'list':
                self.unknown_op('extend of non-list', node, s)
                return NONE
            vv = simplify(v, s.pc) if v.op == 'cases' else v
            segs = []
            for g, x in self.guards(vv):
                it = self.iter_segs(x, s, node)
                if it is None:
                    it = [(TRUE, mk('splat', 'opaque', (
                        (TRUE, mk('iter', self.content(x, s))),)))]
                segs += [(g & gg, y) for gg, y in it]
            s.set(l.args[0], 'items', mk('segs', o.f['items'].args[0]
                                         + tuple(segs)))
            self.event('extend', s, node, recv=l, value=v)
            return NONE

        self.over_cases(lst, st, f)

    def dkey(self, k):
        if k.op == 'enum' and self.is_strenum(k):
            return k.args[1]
        return k

    def dict_update(self, r, src, st, node):
        def f(l, s):
            o = self.obj(l, s)
            if o is not None and o.kind == 'dict' and not o.meta.get(
                    'opaque'):
                for k, v in o.f.items():
                    if isinstance(k, tuple) and v is not ABSENT:
                        self.setitem(r, k[1], v, s, node, quiet=True)
                if o.f.get('?', ABSENT) is not ABSENT:
                    s.set(r.args[0], '?', o.f['?'])
                return NONE
            s.set(r.args[0], '?', mk('upd', s.get(r.args[0], '?'),
                                     self.content(l, s)))
            return NONE

        self.over_cases(src, st, f)

    # --------------------------------------------------------- items
    def getitem(self, b, k, st, node, forstore=False):
        if b.op == 'cases':
            return self.over_cases(
                b, st, lambda l, s: self.getitem(l, k, s, node))
        if b.op == 'call' and b.args[0] == 'sorted' and len(b.args) == 4 \
                and b.args[2] is not NONE and b.args[3].op == 'b' and \
                numval(k) in (0, -1):
            up = (b.args[3].args[0] is FALSE) == (numval(k) == 0)
            return mk('pick', mk('argmin' if up else 'argmax', b.args[2]),
                      b.args[1])
        if b.op == 'pick' and b.args[1].op == 'segs' and numval(k) is not None:
            i = int(numval(k))
            its = []
            for g, x in b.args[1].args[0]:
                sp = x.op == 'splat'
                el = self.seq_items(self.splat_element(x, st) if sp else x,
                                    st)
                if x.op in ('splatvar', 'mulist') or el is None or not (
                        -len(el) <= i < len(el)):
                    its = None
                    break
                its.append((g, mk('splat', x.args[0], ((TRUE, el[i]),))
                            if sp else el[i]))
            if its:
                return mk('pick', b.args[0], mk('segs', tuple(its)))
        o = self.obj(b, st)
        if b.op == 'tuple' or o is not None and o.kind == 'list':
            return self.seq_getitem(b, k, st, node)
        if o is not None and o.kind == 'dict':
            return self.dict_getitem(b, k, st, node)
        if o is not None and o.kind in ('arr', 'view'):
            kc = self.content(k, st)
            c = self.content(b, st)
            if self.basic_key(kc):
                r = self.getitem_content(c, kc)
                if rank(r) == 0:
                    return r
                return self.alloc(st, 'view', f={'base': b, 'key': kc},
                                  label='view', meta={'vk': 'item'})
            return self.wrap(st, self.getitem_content(c, kc))
        if o is not None and o.kind == 'inst':
            if self.lookup_class(o.cls, '__getitem__') is not None:
                return self.call_method(b, '__getitem__', [k], {}, st, node)
        if b.op == 'cls' and self.is_enum(b.args[0]):
            for m in self.classes[b.args[0]].members:
                if k.op == 'const' and m.args[0].endswith(
                        '.' + str(k.args[0])):
                    return m
        if b.op == 'uret' and numval(k) is not None:
            n = self.uret_len(b, st)
            if n is not None and -n <= int(numval(k)) < n:
                return self.ext.uret_items(self, b, n, st)[int(numval(k))]
        h = self.config.get('getitem')
        if h is not None:
            r = h(self, b, k, st, node)
            if r is not None:
                return r
        kc = self.content(k, st)
        if b.op == 'const' and isinstance(b.args[0], str):
            return mk('fstr', 'item', b, kc)
        return self.getitem_content(self.content(b, st), kc)

    def basic_key(self, k):
        ks = k.args[0] if k.op == 'tuple' else (k,)
        for q in ks:
            if q.op == 'slice' or q.op == 'num' or q is NONE:
                continue
            if q.op == 'const':
                continue
            if rank(q) == 0 and q.op not in ('b',):
                continue
            return False
        return True

    def getitem_content(self, c, k):
        k = norm_key(k)
        if k.op in ('argmin', 'argmax') and k.args[0] is c and rank(c) == 1:
            return reduce_minmax('r' + k.op[3:], c)

        def f(c):
            if k.op == 'slice' and all(x is NONE for x in k.args):
                return c
            if c.op == 'tuple' and k.op == 'num':
                return c.args[0][int(k.args[0])]
            if c.op == 'call' and c.args[0] in (
                    'np1.sort', 'sort', 'sorted') and len(
                    c.args) == 2 and k.op == 'num' and k.args[0] in (
                        0, -1) and rank(c.args[1]) == 1:
                return reduce_minmax('rmin' if k.args[0] == 0 else 'rmax',
                                     c.args[1])
            if c.op == 'shape':
                if k.op == 'num' and k.args[0] == 0:
                    return mk('len', c.args[0])
                return mk('getitem', c, k)
            if c.op == 'wheretuple' and k.op == 'num' and k.args[0] == 0:
                return mk('idx', c.args[0])
            if k.op == 'const' and k.args[0] == '...':
                return c
            if k.op == 'tuple' and any(
                    x is NONE for x in k.args[0]) and rank(c) == 1:
                if k.args[0][0] is NONE:
                    return mk('T', mk('col', c))
                return mk('col', c)
            if c.op == 'lin' or c.op == 'prod':
                # indexing distributes over elementwise arithmetic
                if all(rank(x) is not None for x in _bases(c)):
                    rc = rank(c)
                    ok = all(rank(x) in (0, rc) for x in _bases(c))
                    if ok and k.op != 'b' and rc:
                        return subst(c, lambda t: None if t is c or t.op in (
                            'lin', 'prod') else (
                                t if rank(t) == 0 else item(t)))
            return item(c)

        def item(c):
            if c.op == 'ones' and rank(mk('getitem', c, k)) == 0:
                return ONE
            if c.op == 'zeros' and rank(mk('getitem', c, k)) == 0:
                return ZERO
            if c.op == 'col' and k.op == 'tuple' and len(k.args[0]) == 2:
                a, b = k.args[0]
                if b.op == 'num' and b.args[0] == 0:
                    return self.getitem_content(c.args[0], a)
            if k.op == 'b':
                return gather(c, k)
            r = mk('getitem', c, k)
            if k.op == 'num' or rank(r) == 0 or self.basic_key(k):
                return r
            return gather(c, k)

        if k.op == 'cases':
            return lift(lambda kk: self.getitem_content(c, kk), k)
        return lift(f, c) or f(c)

    def seq_getitem(self, b, k, st, node):
        it = self.seq_items(b, st)
        k = simplify(k, st.pc) if k.op == 'cases' else k
        if it is not None:
            v = numval(k)
            if v is not None:
                i = int(v)
                if -len(it) <= i < len(it):
                    return it[i]
                self.do_raise(st, node, 'IndexError', None)
                return mk('undef')
            if k.op == 'slice':
                vs = [None if x is NONE else numval(x) for x in k.args]
                if all(x is NONE or numval(x) is not None for x in k.args):
                    sl = slice(*[None if v is None else int(v) for v in vs])
                    if b.op == 'tuple':
                        return mk('tuple', tuple(it[sl]))
                    return self.new_list(st, it[sl])
            if k.op == 'b' and k.args[0] not in (TRUE, FALSE) and len(
                    it) >= 2:
                return phi(k.args[0], it[1], it[0])
        kc = self.content(k, st)
        while kc.op in ('call', 'ewfun') and len(kc.args) == 2 and \
                kc.args[0] in ('int', 'item', 'numpy.intp'):
            kc = kc.args[1]
        if kc.op in ('argmin', 'argmax'):
            r = self.pick(b, kc, st)
            if r is not None:
                return r
        if kc.op == 'cases':
            return mkcases([(g, self.seq_getitem(b, l, st, node))
                            for g, l in kc.args[0]])
        segs = self.iter_segs(b, st, node)
        if segs is not None:
            v = numval(kc)
            if v is not None and v >= 0:
                i = int(v)
                if all(g is TRUE and x.op not in (
                        'splat', 'splatvar', 'mulist')
                       for g, x in segs[:i + 1]) and len(segs) > i:
                    return segs[i][1]
                if i <= 1 and len(segs) <= 8 and all(
                        x.op not in ('splat', 'splatvar', 'mulist')
                        for _, x in segs):
                    # the first (second) item that is present
                    out, have = [], [TRUE, FALSE]
                    for g, x in segs:
                        out.append((have[i] & g, x))
                        have = [have[0] & ~g, (have[1] & ~g) | (have[0] & g)]
                    none = have[0] if i == 0 else have[0] | have[1]
                    if sat(st.pc & none):
                        self.do_raise(st.fork(none), node, 'IndexError',
                                      None, implicit=True)
                        st.pc = st.pc & ~none
                    out = [(g, x) for g, x in out if sat(g & st.pc)]
                    if out:
                        return mkcases([(constrain(g, st.pc), x)
                                        for g, x in out])
            if v == -1 and segs:
                g, x = segs[-1]
                if g is TRUE and x.op not in ('splat', 'splatvar', 'mulist'):
                    return x
            if kc.op == 'slice':
                lo = numval(kc.args[0]) if kc.args[0] is not NONE else 0
                if kc.args[1] is NONE and kc.args[2] is NONE and \
                        lo is not None and lo >= 0 and all(
                            g is TRUE and x.op not in (
                                'splat', 'splatvar', 'mulist')
                            for g, x in segs[:int(lo)]):
                    return self.alloc(st, 'list', f={'items': mk(
                        'segs', tuple(segs[int(lo):]))})
                return self.alloc(st, 'list', f={'items': mk('segs', tuple(
                    (g & atom(mk('insl', kc, x)), x) for g, x in segs))})
            return mk('listitem', mk('segs', tuple(segs)), kc)
        return mk('getitem', self.content(b, st), kc)

    def pick(self, b, kc, st):
        """seq[argmin(values)] where values map 1:1 onto the items."""
        segs = self.iter_segs(b, st, None)
        if segs is None:
            return None
        return mk('pick', kc, mk('segs', tuple(segs)))

    def dict_getitem(self, b, k, st, node):
        o = self.obj(b, st)
        k = self.content(k, st) if k.op in ('ref', 'cases') else k
        if k.op == 'cases':
            return self.over_cases(
                k, st, lambda l, s: self.dict_getitem(b, l, s, node))
        k = self.dkey(k)
        if o.meta.get('opaque'):
            t = mk('dictitem', o.meta['opaque'], k)
            has = atom(mk('has', o.meta['opaque'], k))
            bad = st.fork(~has)
            if sat(bad.pc):
                self.do_raise(bad, node, 'KeyError', None, implicit=True)
            st.pc = st.pc & has
            return t
        if not (is_const(k) or k.op in ('tuple', 'cls', 'ext', 'func')):
            # select over known keys
            pairs = []
            for kk, v in o.f.items():
                if isinstance(kk, tuple) and v is not ABSENT:
                    pairs.append((kk[1], v))
            if pairs and all(is_const(kk) or kk.op == 'enum'
                             for kk, _ in pairs):
                out = []
                rest = TRUE
                for kk, v in pairs:
                    g = self.eq(k, kk, st) & rest
                    out.append((g, v))
                    rest = rest & ~g
                if rest is not FALSE and sat(st.pc & rest):
                    bad = st.fork(rest)
                    self.do_raise(bad, node, 'KeyError', None,
                                  implicit=True)
                    st.pc = st.pc & ~rest
                return mkcases([(constrain(g, st.pc), v) for g, v in out])
            fac = o.meta.get('factory')
            if fac is not None:
                v = self.call(fac, [], {}, st, node)
                st.set(b.args[0], '?', mk('upd', st.get(b.args[0], '?'),
                                          tup(k, v)))
                return v
            return mk('getitem', b, k)
        v = o.f.get(('k', k), ABSENT)
        if v.op == 'cases':
            v = simplify(v, st.pc)
        if v is ABSENT or v.op == 'cases' and any(
                l is ABSENT for _, l in v.args[0]):
            fac = o.meta.get('factory')
            ab = TRUE if v is ABSENT else disj(
                *[g for g, l in v.args[0] if l is ABSENT])
            if fac is not None:
                def mkdef(s):
                    nv = self.call(fac, [], {}, s, node)
                    s.set(b.args[0], ('k', k), nv)
                    return nv

                return self.branch(st, ab, mkdef,
                                   lambda s: s.get(b.args[0], ('k', k)))
            if o.f.get('?', ABSENT) is not ABSENT:
                return mk('getitem', b, k)
            bad = st.fork(ab)
            if sat(bad.pc):
                self.do_raise(bad, node, 'KeyError', None, implicit=True)
            st.pc = st.pc & ~ab
            if st.dead:
                return mk('undef')
            return simplify(v, st.pc)
        return v

    def setitem(self, b, k, v, st, node, quiet=False):
        if b.op == 'cases':
            self.over_cases(
                b, st, lambda l, s: self.setitem(l, k, v, s, node) or NONE)
            return
        o = self.obj(b, st)
        if o is None:
            self.unknown_op('item store into unknown value', node, st)
            return
        if o.kind in ('arr', 'view'):
            c = self.content(b, st)
            kc = norm_key(self.content(k, st))
            vc = self.content(v, st)
            if kc.op == 'slice' and all(x is NONE for x in kc.args) or (
                    kc.op == 'const' and kc.args[0] == '...'):
                if rank(vc) == 0:
                    vc = mul(vc, mk('ones', rank(c) or 1))
                self.write_arr(b, vc, st, node)
            else:
                self.write_arr(b, boolarr(scatter(c, kc, vc)), st, node)
            return
        if o.kind == 'list':
            it = self.seq_items(b, st)
            i = numval(k)
            if it is not None and i is not None and \
                    -len(it) <= i < len(it):
                it[int(i)] = v
                st.set(b.args[0], 'items', mk('segs', tuple(
                    (TRUE, x) for x in it)))
            else:
                st.set(b.args[0], 'items', mk('segs', (
                    (TRUE, mk('mulist', 'set', str(b.args[0]))),)))
                self.unknown_op('list item store', node, st)
            self.event('listset', st, node, recv=b, key=k, value=v)
            return
        if o.kind == 'dict':
            kk = self.dkey(self.content(k, st) if k.op in (
                'ref', 'cases') else k)
            if kk.op == 'cases':
                self.over_cases(
                    kk, st, lambda l, s: self.setitem(b, l, v, s, node)
                    or NONE)
                return
            if is_const(kk) or kk.op in ('tuple', 'cls', 'ext', 'enum',
                                         'func'):
                st.set(b.args[0], ('k', kk), v)
            else:
                st.set(b.args[0], '?', mk(
                    'upd', st.get(b.args[0], '?'), tup(kk, v)))
            if not quiet:
                self.event('dictset', st, node, recv=b, key=kk, value=v)
            return
        if o.kind == 'inst' and self.lookup_class(
                o.cls, '__setitem__') is not None:
            self.call_method(b, '__setitem__', [k, v], {}, st, node)
            return
        self.unknown_op('item store into ' + o.kind, node, st)

    # --------------------------------------------------------------- classes
    def mro(self, qual):
        ci = self.classes.get(qual)
        if ci is None:
            return [qual]
        # C3 is overkill for single inheritance; left-to-right depth first
        # with duplicates removed from the front
        out = [qual]
        for b in ci.bases:
            for c in self.mro(b):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def is_enum(self, qual):
        for c in self.mro(qual):
            ci = self.classes.get(c)
            if ci and any(e.startswith('enum.') for e in ci.ext):
                return True
        return False

    def lookup_class(self, qual, name, after=None):
        ms = self.mro(qual)
        if after is not None:
            ms = ms[ms.index(after) + 1:]
        for c in ms:
            o = self.base.heap.get(('cls', c))
            if o is None:
                o = self.cur_cls(c)
            if o is not None and name in o.f:
                return o.f[name]
        return None

    def cur_cls(self, c):
        return None

    def issub(self, a, b):
        return b in self.mro(a)

    def isinstance(self, v, c, st):
        if c.op == 'tuple':
            r = FALSE
            for x in c.args[0]:
                r = r | self.isinstance(v, x, st)
            return r
        if c.op == 'cases':
            r = FALSE
            for g, x in c.args[0]:
                r = r | (g & self.isinstance(v, x, st))
            return r
        if v.op == 'cases':
            r = FALSE
            for g, x in v.args[0]:
                r = r | (g & self.isinstance(x, c, st))
            return r
        if c.op == 'call' and c.args[0] == 'op.BitOr':
            return self.isinstance(v, c.args[1], st) | self.isinstance(
                v, c.args[2], st)
        if c.op not in ('cls', 'ext', 'enumcls'):
            return atom(mk('isinst', v, c))
        cn = c.args[0]
        short = cn.split('.')[-1]
        o = self.obj(v, st)
        if o is not None:
            if o.kind == 'inst':
                if o.meta.get('anysub') and cn in self.classes and \
                        not self.issub(o.cls, cn):
                    return atom(mk('isinst', v, short))
                return TRUE if cn in self.mro(o.cls) or \
                    short == 'object' else FALSE
            names = {'arr': ('ndarray',), 'view': ('ndarray',),
                     'list': ('list', 'Sequence', 'Iterable'),
                     'dict': ('dict', 'Mapping', 'defaultdict'),
                     'set': ('set',)}.get(o.kind, ())
            if o.kind == 'arr' and o.meta.get('ext'):
                return atom(mk('isinst', v, short))
            return TRUE if short in names or short == 'object' else FALSE
        if v.op == 'sym':
            pt = SYMINFO.get(v.args[0], {}).get('pytypes')
            if pt is not None:
                return TRUE if cn in pt or short in pt else FALSE
        if v.op == 'enum':
            q = v.args[0].rsplit('.', 1)[0]
            ok = cn in self.mro(q)
            if not ok:
                for m in self.mro(q):
                    ci = self.classes.get(m)
                    if ci and cn in ci.ext:
                        ok = True
            return TRUE if ok or short == 'object' else FALSE
        if v is NONE:
            return TRUE if short == 'NoneType' else FALSE
        if v.op == 'const' and isinstance(v.args[0], str) or v.op == 'fstr':
            return TRUE if short in ('str', 'object') else FALSE
        if v.op == 'tuple':
            return TRUE if short in ('tuple', 'object', 'Sequence') else FALSE
        if v.op in ('func', 'bm'):
            return TRUE if short in ('Callable', 'object') else FALSE
        if v.op == 'cls':
            return TRUE if short in ('type', 'object') else FALSE
        if v.op == 'num':
            if short in ('str', 'list', 'dict', 'tuple', 'set', 'ndarray'):
                return FALSE
            if short in ('float', 'Real', 'Number'):
                return TRUE
            return TRUE if v.args[0].denominator == 1 else FALSE
        if v.op == 'b' and short == 'bool':
            return TRUE
        if cn in self.classes and v.op in ('lin', 'prod', 'norm', 'vsum'):
            return FALSE
        return atom(mk('isinst', self.content(v, st), short))

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, st, node, default=None):
        if v.op == 'cases':
            return self.over_cases(
                v, st, lambda l, s: self.getattr(l, name, s, node, default))
        if v.op == 'sym' and 'float' in SYMINFO.get(v.args[0], {}).get(
                'pytypes', ()) and name not in dir(float):
            self.do_raise(st, node, 'AttributeError', None)
            return mk('undef')
        o = self.obj(v, st)
        if o is not None and o.kind == 'inst':
            val = o.f.get(name, ABSENT)
            if val.op == 'cases':
                val = simplify(val, st.pc)
            if val is not ABSENT and val.op != 'cases':
                return val
            if val.op == 'cases':
                if all(l is not ABSENT for _, l in val.args[0]):
                    return val
                ab = disj(*[g for g, l in val.args[0] if l is ABSENT])
                return self.branch(
                    st, ab, lambda s: self.class_attr(
                        v, o, name, s, node, default),
                    lambda s: simplify(val, s.pc & ~ab))
            return self.class_attr(v, o, name, st, node, default)
        if o is not None:
            if o.kind in ('arr', 'view'):
                return self.ext.arr_attr(self, v, name, st, node)
            if o.kind in ('list', 'dict', 'set'):
                return mk('bm', v, mk('ext', o.kind + '.' + name))
            if o.kind == 'env':
                return o.f.get(name, ABSENT)
        if v.op == 'mod':
            env = self.mods[v.args[0]]
            r = (st.heap.get(env) or self.base.heap[env]).f.get(name, ABSENT)
            if r is ABSENT:
                if v.args[0] + '.' + name in self.paths:
                    return mk('mod', v.args[0] + '.' + name)
                return mk('ext', v.args[0] + '.' + name)
            return r
        if v.op == 'ext':
            return self.ext.ext_attr(self, v.args[0] + '.' + name)
        if v.op == 'cls':
            if name == '__name__':
                return const(v.args[0].split('.')[-1])
            a = self.lookup_class(v.args[0], name)
            if a is None:
                if name == '__members__' and self.is_enum(v.args[0]):
                    r = self.alloc(st, 'dict')
                    for m in self.classes[v.args[0]].members:
                        self.setitem(
                            r, const(m.args[0].split('.')[-1]), m, st, node,
                            quiet=True)
                    return r
                return mk('attr', v, name)
            oc = st.heap.get(('cls', v.args[0]))
            if oc is not None and name in oc.f:
                a = oc.f[name]
            if a.op == 'staticmethod':
                return a.args[0]
            if a.op == 'classmethod':
                return mk('bm', v, a.args[0])
            return a
        if v.op == 'super':
            cls, selfv = v.args
            so = self.obj(selfv, st)
            q = so.cls if so is not None else cls
            a = self.lookup_class(q, name, after=cls)
            if a is None:
                return mk('ext', 'object.' + name)
            return self.bind(a, selfv, st, node)
        if v.op == 'enum':
            if name == 'value':
                return v.args[1]
            if name == 'name':
                return const(v.args[0].split('.')[-1])
            a = self.lookup_class(v.args[0].rsplit('.', 1)[0], name)
            if a is not None:
                return self.bind(a, v, st, node)
            return mk('bm', v.args[1], mk('ext', 'str.' + name))
        if v.op == 'const' and isinstance(v.args[0], str) or v.op == 'fstr':
            return mk('bm', v, mk('ext', 'str.' + name))
        if v.op == 'property' and name == 'setter':
            return mk('propset', v)
        h = self.config.get('getattr')
        if h is not None:
            r = h(self, v, name, st, node)
            if r is not None:
                return r
        if v.op == 'func' and name in ('__name__', '__qualname__'):
            return const(self.funcs[v.args[0]].qual)
        return self.ext.val_attr(self, v, name, st, node)

    def class_attr(self, v, o, name, st, node, default=None):
        if o.meta.get('lazy') is not None:
            r = o.meta['lazy'](self, v, o, name, st)
            if r is not None:
                return r
        if name == '__class__':
            return mk('cls', o.cls)
        if name == '__dict__':
            return mk('call', 'instdict', v)
        a = self.lookup_class(o.cls, name)
        if a is None:
            if default is not None:
                return default
            ga = self.lookup_class(o.cls, '__getattr__')
            if ga is not None:
                return self.call(mk('bm', v, ga), [const(name)], {}, st, node)
            ci_ext = any(self.classes[c].ext for c in self.mro(o.cls)
                         if c in self.classes)
            if ci_ext:
                return mk('attr', v, name)
            self.do_raise(st, node, 'AttributeError', const(name),
                          implicit=True)
            return mk('undef')
        return self.bind(a, v, st, node)

    def bind(self, a, v, st, node):
        if a.op == 'property':
            return self.call(a.args[0], [v], {}, st, node)
        if a.op == 'staticmethod':
            return a.args[0]
        if a.op == 'classmethod':
            o = self.obj(v, st)
            return mk('bm', mk('cls', o.cls) if o else v, a.args[0])
        if a.op in ('func', 'cached', 'decorated'):
            return mk('bm', v, a)
        return a

    def setattr(self, v, name, val, st, node):
        if v.op == 'cases':
            self.over_cases(
                v, st, lambda l, s: self.setattr(l, name, val, s, node)
                or NONE)
            return
        o = self.obj(v, st)
        if o is not None and o.kind == 'inst':
            a = self.lookup_class(o.cls, name)
            if a is not None and a.op == 'property' and len(a.args) > 1:
                self.call(a.args[1], [v, val], {}, st, node)
                return
            self.event('setattr', st, node, recv=v, name=name, value=val,
                       old=o.f.get(name, ABSENT))
            st.set(v.args[0], name, val)
            return
        if v.op == 'cls':
            self.event('classwrite', st, node, cls=v.args[0], name=name,
                       value=val)
            oid = ('cls', v.args[0])
            if oid in st.heap:
                st.set(oid, name, val)
            return
        if v.op == 'mod':
            self.event('globalwrite', st, node, name=name, mod=v.args[0],
                       value=val)
            st.set(self.mods[v.args[0]], name, val)
            return
        if o is not None and o.kind in ('arr', 'view'):
            self.unknown_op('attribute store on array', node, st)
            return
        if v.op in ('func', 'bm'):
            self.event('funcattr', st, node, name=name)
            return
        self.event('extattr', st, node, recv=v, name=name)
        if v.op == 'ext':
            self.event('globalwrite', st, node, name=name, mod=v.args[0],
                       value=val)

    # ----------------------------------------------------------------- calls
    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            cls = fr.func.cls
            e = fr
            selfname = None
            if e.func.node and hasattr(e.func.node, 'args') and \
                    e.func.node.args.args:
                selfname = e.func.node.args.args[0].arg
            selfv = self.load_name(selfname, st, fr, n)
            return mk('super', cls, selfv)
        if isinstance(n.func, ast.Name) and n.func.id == 'locals' and \
                not n.args:
            return mk('call', 'locals')
        fv = self.ev(n.func, st, fr)
        if st.dead:
            return mk('undef')
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                if v.op == 'cases':
                    v = simplify(v, st.pc)
                it = self.seq_items(v, st)
                if it is None:
                    args.append(mk('starargs', self.content(v, st)))
                else:
                    args += it
            else:
                args.append(self.ev(a, st, fr))
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                o = self.obj(v, st)
                if o is not None and o.kind == 'dict' and not o.meta.get(
                        'opaque') and o.f.get('?', ABSENT) is ABSENT:
                    for kk, vv in o.f.items():
                        if isinstance(kk, tuple) and vv is not ABSENT:
                            kwargs[str(kk[1].args[0])] = vv
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        if st.dead:
            return mk('undef')
        return self.call(fv, args, kwargs, st, n)

    def call_method(self, v, name, args, kwargs, st, node):
        f = self.getattr(v, name, st, node)
        return self.call(f, args, kwargs, st, node)

    def call(self, f, args, kwargs, st, node):
        if st.dead:
            return mk('undef')
        if f.op == 'cases':
            return self.over_cases(
                f, st, lambda l, s: self.call(l, args, kwargs, s, node))
        if f.op == 'func':
            return self.call_func(f, args, kwargs, st, node)
        if f.op == 'bm':
            recv, g = f.args
            if g.op == 'ext':
                return self.ext.call_extmethod(
                    self, recv, g.args[0], args, kwargs, st, node)
            if g.op == 'cached':
                self.event('cachedcall', st, node, func=g)
                g = g.args[0]
            return self.call(g, [recv] + args, kwargs, st, node)
        if f.op == 'cls':
            return self.instantiate(f.args[0], args, kwargs, st, node)
        if f.op == 'staticmethod':
            return self.call(f.args[0], args, kwargs, st, node)
        if f.op == 'cached':
            self.event('cachedcall', st, node, func=f)
            return self.call(f.args[0], args, kwargs, st, node)
        if f.op == 'decorated':
            self.unknown_op('call of function with unknown decorator',
                            node, st)
            return self.call(f.args[1], args, kwargs, st, node)
        if f.op == 'partial':
            return self.call(f.args[0], list(f.args[1]) + args,
                             {**dict(f.args[2]), **kwargs}, st, node)
        if f.op == 'ext':
            return self.ext.call_ext(self, f.args[0], args, kwargs, st, node)
        o = self.obj(f, st)
        if o is not None and o.kind == 'inst':
            c = self.lookup_class(o.cls, '__call__')
            if c is not None:
                return self.call(self.bind(c, f, st, node), args, kwargs, st,
                                 node)
        return self.ext.call_unknown(self, f, args, kwargs, st, node)

    def call_func(self, f, args, kwargs, st, node):
        fi = self.funcs[f.args[0]]
        h = self.hooks.get(fi.qual)
        if h is not None:
            r = h(self, st, args, kwargs, node, f)
            if r is not None:
                return r
        if len(self.callstack) > self.maxdepth or sum(
                1 for c in self.callstack if c.func is fi) > 3:
            self.event('recursion', st, node, func=fi.qual)
            if not self.dry:
                self.notes.append(('recursion', fi.qual))
            return mk('call', 'recursive:' + fi.qual)
        self.ncalls += 1
        self.visited.add(fi.qual)
        n = fi.node
        self.nalloc += 1
        env = (fi.qual, self.nalloc)
        ctx = ((self.callstack[-1].ctx if self.callstack else ()) +
               ((fi.qual, getattr(node, 'lineno', 0),
                 getattr(node, 'col_offset', 0)),))
        fr = Frame(fi, env, ctx)
        st.heap[env] = Obj('env', label=fi.qual,
                           meta={'parent': f.args[1]})
        if not self.bind_args(f, fi, n, args, kwargs, st, env, node):
            return mk('undef')
        self.callstack.append(fr)
        try:
            if isinstance(n, ast.Lambda):
                v = self.ev(n.body, st, fr)
                res = [(st, v)] if not st.dead else []
            else:
                gen = fi.isgen
                if gen is None:
                    gen = fi.isgen = _is_generator(n)
                if gen:
                    fr.ylist = self.new_list(st, [])
                s2 = self.exec_block(n.body, st.fork(), fr)
                res = list(fr.rets)
                if s2 is not None and not s2.dead:
                    res.append((s2, NONE))
                if gen:
                    res = [(s, fr.ylist) for s, _ in res]
        finally:
            self.callstack.pop()
        if not res:
            st.pc = FALSE
            return mk('undef')
        m = self.merge([s for s, _ in res])
        if len(res) == 1:
            v = res[0][1]
        else:
            v = mkcases([(constrain(s.pc, m.pc), x) for s, x in res
                         if not s.dead])
        st.heap, st.pc = m.heap, m.pc
        if not fr.closure:
            st.heap.pop(env, None)
        return v

    def bind_args(self, f, fi, n, args, kwargs, st, env, node):
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        defs = f.args[2]
        vals = {}
        kw = dict(kwargs)
        extra = kw.pop('**', None)
        for i, v in enumerate(args):
            if v.op == 'starargs':
                for p in pos[i:]:
                    vals[p] = mk('getitem', v.args[0], const(p))
                break
            if i < len(pos):
                vals[pos[i]] = v
        if a.vararg:
            vals[a.vararg.arg] = mk('tuple', tuple(args[len(pos):]))
        elif len(args) > len(pos):
            self.do_raise(st, node, 'TypeError', const('too many arguments'))
            return False
        names = pos + [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    self.do_raise(st, node, 'TypeError', const(
                        'multiple values for ' + k))
                    return False
                vals[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            r = self.alloc(st, 'dict')
            for k, v in rest.items():
                self.setitem(r, const(k), v, st, node, quiet=True)
            if extra is not None:
                self.dict_update(r, extra, st, node)
            vals[a.kwarg.arg] = r
        elif rest:
            self.do_raise(st, node, 'TypeError', const(
                'unexpected keyword ' + ', '.join(rest)))
            return False
        nd = len(defs)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[p] = defs[j]
                else:
                    self.do_raise(st, node, 'TypeError', const(
                        'missing argument ' + p))
                    return False
        for x, d in zip(a.kwonlyargs, f.args[3]):
            if x.arg not in vals:
                if d is ABSENT:
                    self.do_raise(st, node, 'TypeError', const(
                        'missing argument ' + x.arg))
                    return False
                vals[x.arg] = d
        o = st.heap[env]
        o.f.update(vals)
        return True

    def instantiate(self, qual, args, kwargs, st, node):
        h = self.hooks.get(qual)
        if h is not None:
            r = h(self, st, args, kwargs, node, mk('cls', qual))
            if r is not None:
                return r
        if self.is_enum(qual) and len(args) == 1:
            return self.enum_lookup(qual, args[0], st, node)
        ci = self.classes[qual]
        r = self.alloc(st, 'inst', cls=qual, label=qual.split('.')[-1])
        init = self.lookup_class(qual, '__init__')
        if init is not None:
            self.call(init, [r] + args, kwargs, st, node)
            return r
        if getattr(ci, 'dataclass', False) or any(
                getattr(self.classes.get(c), 'dataclass', False)
                for c in self.mro(qual)) or any(
                    e.endswith('NamedTuple') for e in ci.ext):
            names = []
            for c in reversed(self.mro(qual)):
                o = self.base.heap.get(('clsenv', c))
                if o is not None:
                    for x in o.meta.get('ann', []):
                        if x not in names:
                            names.append(x)
            for i, x in enumerate(names):
                if i < len(args):
                    v = args[i]
                elif x in kwargs:
                    v = kwargs[x]
                else:
                    v = self.lookup_class(qual, x)
                    if v is None:
                        v = ABSENT
                    elif v.op == 'call' and 'field' in str(v.args[0]):
                        fac = self.field_factory(v)
                        v = self.call(fac, [], {}, st, node) if fac else v
                st.set(r.args[0], x, v)
            pi = self.lookup_class(qual, '__post_init__')
            if pi is not None:
                self.call(pi, [r], {}, st, node)
            if any(e.endswith('NamedTuple') for e in ci.ext):
                o = st.heap[r.args[0]]
                return mk('tuple', tuple(o.f[x] for x in names))
        return r

    def field_factory(self, v):
        for x in v.args[1:]:
            if x.op == 'kw' and x.args[0] == 'default_factory':
                return x.args[1]
        return None

    def enum_lookup(self, qual, v, st, node):
        def f(l, s):
            ci = self.classes[qual]
            if l.op == 'enum' and l.args[0].rsplit('.', 1)[0] == qual:
                return l
            x = l.args[1] if l.op == 'enum' and self.is_strenum(l) else l
            for m in ci.members:
                if m.args[1] is x:
                    return m
            if is_const(x) or x.op in ('ref', 'tuple'):
                self.do_raise(s, node, 'ValueError', None)
                return mk('undef')
            pt = SYMINFO.get(x.args[0], {}).get('pytypes') if \
                x.op == 'sym' else None
            if pt is not None and 'str' not in pt or (
                    x.op == 'sym'
                    and SYMINFO.get(x.args[0], {}).get('distinct')):
                self.do_raise(s, node, 'ValueError', None)
                return mk('undef')
            r = mk('undef')
            out = []
            rest = TRUE
            for m in ci.members:
                g = self.eq(x, m, s)
                out.append((g & rest, m))
                rest = rest & ~g
            bad = s.fork(rest)
            if sat(bad.pc):
                self.do_raise(bad, node, 'ValueError', None)
            s.pc = s.pc & ~rest
            if s.dead:
                return r
            return mkcases([(constrain(g, s.pc), m) for g, m in out])

        return self.over_cases(v, st, f)


def _bases(t):
    for m, _ in lin_items(t):
        for b, _ in mono_items(m):
            yield b


def _is_generator(n):
    for x in ast.walk(n):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            # not in a nested function
            return _owner_has(n, x)
    return False


def _owner_has(n, y):
    stack = list(n.body)
    while stack:
        x = stack.pop()
        if x is y:
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


class _Syn:
    def __init__(self, n):
        self.lineno = n.lineno
        self.col_offset = n.col_offset


class _Emit(_Syn):
    def __init__(self, emit, n):
        super().__init__(n)
        self.emit = emit


class _If(_Syn):
    def __init__(self, test, body, n):
        super().__init__(n)
        self.test, self.body, self.orelse = test, body, []


class _For(_Syn):
    def __init__(self, target, it, body, n, g):
        super().__init__(n)
        self.target, self.iter, self.body, self.orelse = target, it, body, []
        self.col_offset = g.target.col_offset
