"""Value domain of the analysis: hash-consed terms with canonical forms.

Two program expressions that compute the same value in exact arithmetic are
meant to become the *same* object here (global value numbering modulo linear
algebra identities).  Guards are reduced ordered BDDs over atoms, so that a
merged value is a canonical case table (`cases`), never an enumeration of
paths.  Nothing in here runs code of the analysed program.
"""

from fractions import Fraction


# --------------------------------------------------------------------------
# hash consing
class T:
    __slots__ = ('op', 'args', 'id', '_rk', '_sc')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._rk = -1
        t._sc = None
        _tab[key] = t
    return t


class B:
    """BDD node; ``v`` is the atom index (``None`` for terminals)."""

    __slots__ = ('v', 'lo', 'hi', 'id', '_sup')

    def __repr__(self):
        return showb(self)

    def __and__(self, o):
        return ite(self, o, FALSE)

    def __or__(self, o):
        return ite(self, TRUE, o)

    def __invert__(self):
        return ite(self, FALSE, TRUE)


_btab = {}


def _bmk(v, lo, hi):
    if lo is hi:
        return lo
    key = (v, lo.id, hi.id)
    b = _btab.get(key)
    if b is None:
        b = B()
        b.v, b.lo, b.hi = v, lo, hi
        b.id = len(_btab) + 2
        b._sup = None
        _btab[key] = b
    return b


FALSE = B()
FALSE.v = FALSE.lo = FALSE.hi = None
FALSE.id = 0
FALSE._sup = frozenset()
TRUE = B()
TRUE.v = TRUE.lo = TRUE.hi = None
TRUE.id = 1
TRUE._sup = frozenset()

_atoms = []
_atomidx = {}


def atom(t):
    """BDD of a single atom (a term)."""
    i = _atomidx.get(t)
    if i is None:
        i = _atomidx[t] = len(_atoms)
        _atoms.append(t)
    return _bmk(i, FALSE, TRUE)


def atom_of(v):
    return _atoms[v]


_itememo = {}


def ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f.id, g.id, h.id)
    r = _itememo.get(key)
    if r is None:
        v = min(x.v for x in (f, g, h) if x.v is not None)
        f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
        g0, g1 = (g.lo, g.hi) if g.v == v else (g, g)
        h0, h1 = (h.lo, h.hi) if h.v == v else (h, h)
        r = _bmk(v, ite(f0, g0, h0), ite(f1, g1, h1))
        _itememo[key] = r
    return r


def conj(*bs):
    r = TRUE
    for b in bs:
        r = r & b
    return r


def disj(*bs):
    r = FALSE
    for b in bs:
        r = r | b
    return r


_conmemo = {}


def constrain(f, c):
    """Generalised cofactor (Coudert-Madre): equals f wherever c holds."""
    if c is TRUE or f is TRUE or f is FALSE:
        return f
    if c is FALSE:
        return FALSE
    if f is c:
        return TRUE
    key = (f.id, c.id)
    r = _conmemo.get(key)
    if r is None:
        if c.v < f.v:
            # existentially drop variables f does not depend on
            r = constrain(f, c.lo | c.hi)
        else:
            v = f.v
            c0, c1 = (c.lo, c.hi) if c.v == v else (c, c)
            if c0 is FALSE:
                r = constrain(f.hi, c1)
            elif c1 is FALSE:
                r = constrain(f.lo, c0)
            else:
                r = _bmk(v, constrain(f.lo, c0), constrain(f.hi, c1))
        _conmemo[key] = r
    return r


def support(b):
    s = b._sup
    if s is None:
        s = b._sup = support(b.lo) | support(b.hi) | {b.v}
    return s


def batoms(b):
    return [_atoms[v] for v in sorted(support(b))]


def restrict(b, v, val):
    if b.v is None or b.v > v:
        return b
    if b.v == v:
        return b.hi if val else b.lo
    return ite(_bmk(b.v, FALSE, TRUE), restrict(b.hi, v, val),
               restrict(b.lo, v, val))


def bmap(b, f):
    """Substitute every atom by f(atom term) -> B."""
    memo = {}

    def go(b):
        if b.v is None:
            return b
        r = memo.get(b.id)
        if r is None:
            r = memo[b.id] = ite(f(_atoms[b.v]), go(b.hi), go(b.lo))
        return r

    return go(b)


def cubes(b):
    """Disjoint cubes of b as dicts atom index -> bool (for reports)."""
    if b is FALSE:
        return
    if b is TRUE:
        yield {}
        return
    for val, sub in ((True, b.hi), (False, b.lo)):
        for c in cubes(sub):
            d = {b.v: val}
            d.update(c)
            yield d


# --------------------------------------------------------------------------
# theory of comparisons (used for simplification and entailment only)
def _split_const(e):
    c = Fraction(0)
    rest = []
    for m, k in lin_items(e):
        if m is ONE:
            c += k
        else:
            rest.append((m.id, k))
    return tuple(rest), c


def _zero_bases(t):
    """Factors one of which is zero iff the monomial t is, or None."""
    (m, _), = lin_items(t)
    out = set()
    for b, e in mono_items(m):
        if e < 0 or b in (INF, NAN):
            return None
        out.add(b.args[0] if b.op == 'abs' else b)
    return out


def _zero_axiom(a, b, nanfree):
    """Relation of  monomial == 0  and  another monomial ? 0."""
    if a.op != 'eq0':
        a, b = b, a
    x, y = _zero_bases(a.args[0]), _zero_bases(b.args[0])
    if x is None or y is None:
        return TRUE
    A, Bb = atom(a), atom(b)
    r = TRUE
    if b.op == 'eq0':
        if x == y:
            r = (A & Bb) | (~A & ~Bb)
    elif b.op == 'lt0':
        if x <= y:
            r = r & ~(A & Bb)
        if x == y and nanfree and sign_nonneg(neg(b.args[0])):
            r = r & (A | Bb)
    return r


_axmemo = {}


def _pair_axiom(a, b, nanfree):
    """Clause (BDD) that relates two atoms, or TRUE."""
    key = (a.id, b.id, nanfree)
    r = _axmemo.get(key)
    if r is not None:
        return r
    r = TRUE
    cmpops = ('lt0', 'le0', 'eq0')
    if a.op in cmpops and b.op in cmpops:
        ra, ca = _split_const(a.args[0])
        rb, cb = _split_const(b.args[0])
        A, Bb = atom(a), atom(b)
        if ra != rb and ca == cb == 0 and 'eq0' in (a.op, b.op) and \
                len(ra) == len(rb) == 1:
            r = _zero_axiom(a, b, nanfree)
        if ra == rb and ra:
            # e+ca ? 0  and  e+cb ? 0
            def imp(o1, c1, o2, c2):
                # (e+c1 o1 0) -> (e+c2 o2 0)
                if o1 in ('lt0', 'le0', 'eq0') and o2 in ('lt0', 'le0'):
                    if c2 < c1:
                        return True
                    if c2 == c1:
                        return o2 == 'le0' or o1 == 'lt0'
                return False

            if imp(a.op, ca, b.op, cb):
                r = r & (~A | Bb)
            if imp(b.op, cb, a.op, ca):
                r = r & (~Bb | A)
            if a.op == 'eq0' and b.op == 'eq0' and ca != cb:
                r = r & ~(A & Bb)
            if a.op == 'eq0' and b.op in ('lt0', 'le0') and (
                cb > ca or (cb == ca and b.op == 'lt0')
            ):
                r = r & ~(A & Bb)
            if b.op == 'eq0' and a.op in ('lt0', 'le0') and (
                ca > cb or (ca == cb and a.op == 'lt0')
            ):
                r = r & ~(A & Bb)
        else:
            nrb = tuple((i, -k) for i, k in rb)
            if ra == nrb and ra:
                # a: e+ca o 0 ; b: -e+cb o 0, i.e. e - cb >= 0
                # both hold: cb >= e >= ... ; a: e <= -ca, b: e >= cb
                strict = a.op == 'lt0' or b.op == 'lt0'
                if a.op == 'eq0' and b.op != 'eq0':
                    # e == -ca, b: -e + cb o 0
                    v = ca + cb
                    if v < 0 or v == 0 and b.op == 'le0':
                        r = r & (~A | Bb)
                    else:
                        r = r & ~(A & Bb)
                elif b.op == 'eq0' and a.op != 'eq0':
                    # e == cb, a: e + ca o 0
                    v = ca + cb
                    if v < 0 or v == 0 and a.op == 'le0':
                        r = r & (~Bb | A)
                    else:
                        r = r & ~(A & Bb)
                elif a.op != 'eq0' and b.op != 'eq0':
                    if cb > -ca or (cb == -ca and strict):
                        r = r & ~(A & Bb)
                    if nanfree:
                        # not a: e > -ca (>= if lt); not b: e < cb
                        s2 = a.op == 'le0' or b.op == 'le0'
                        if -ca > cb or (-ca == cb and s2):
                            r = r & (A | Bb)
    elif a.op == 'isfinite' and b.op in cmpops or \
            b.op == 'isfinite' and a.op in cmpops:
        f, c = (a, b) if a.op == 'isfinite' else (b, a)
        its = lin_items(c.args[0])
        k = [k for m, k in its if m is INF]
        if k:
            rest = from_lin({m: k for m, k in its if m is not INF})
            if rest is f.args[0] or neg(rest) is f.args[0]:
                # finite + inf ? 0
                r = ~atom(f) | (atom(c) if k[0] < 0 and c.op != 'eq0'
                                else ~atom(c))
    elif {a.op, b.op} == {'truth', 'eq0'} and a.args[0] is b.args[0]:
        r = (atom(a) & ~atom(b)) | (~atom(a) & atom(b))
    elif 'truth' in (a.op, b.op) and (a.op == 'lt0' or b.op == 'lt0'):
        t, c = (a, b) if a.op == 'truth' else (b, a)
        if c.args[0] is t.args[0] or neg(c.args[0]) is t.args[0]:
            r = ~atom(c) | atom(t)
    elif 'isnan' in (a.op, b.op) and (a.op in cmpops or b.op in cmpops):
        i, c = (a, b) if a.op == 'isnan' else (b, a)
        if c.args[0] is i.args[0] or neg(c.args[0]) is i.args[0]:
            r = ~(atom(i) & atom(c))
    elif a.op == 'isfinite' and b.op == 'isnan' and a.args == b.args:
        r = ~(atom(a) & atom(b))
    elif b.op == 'isfinite' and a.op == 'isnan' and a.args == b.args:
        r = ~(atom(a) & atom(b))
    elif a.op == 'eq' and b.op == 'eq':
        # equality of one term with two different constants
        for i in (0, 1):
            for j in (0, 1):
                if (
                    a.args[i] is b.args[j]
                    and a.args[1 - i] is not b.args[1 - j]
                    and is_const(a.args[1 - i])
                    and is_const(b.args[1 - j])
                ):
                    r = ~(atom(a) & atom(b))
    elif a.op == 'isinst' and b.op == 'eq' or a.op == 'eq' and b.op == 'isinst':
        i, e = (a, b) if a.op == 'isinst' else (b, a)
        for k in (0, 1):
            if e.args[k] is i.args[0] and e.args[1 - k].op == 'const' \
                    and isinstance(e.args[1 - k].args[0], str) \
                    and i.args[1] == 'str':
                r = ~atom(e) | atom(i)
    elif {a.op, b.op} == {'isnone', 'isinst'} and a.args[0] is b.args[0]:
        r = ~(atom(a) & atom(b))
    elif {a.op, b.op} == {'isnone', 'truth'} and a.args[0] is b.args[0]:
        r = ~(atom(a) & atom(b))
    elif {a.op, b.op} == {'isnone', 'eq'}:
        n, e = (a, b) if a.op == 'isnone' else (b, a)
        if n.args[0] in e.args:
            r = ~(atom(a) & atom(b))
    elif a.op == 'any' and b.op == 'any' and isinstance(a.args[0], B):
        # any(f) -> any(g) if f implies g
        f, g = a.args[0], b.args[0]
        if entails(f, g, nanfree):
            r = r & (~atom(a) | atom(b))
        if entails(g, f, nanfree):
            r = r & (~atom(b) | atom(a))
        if nanfree and entails(TRUE, f | g, nanfree):
            r = r & (atom(a) | atom(b))
    _axmemo[key] = r
    return r


_thmemo = {}


def _related(vs, nanfree):
    key = (vs, nanfree)
    r = _thmemo.get(key)
    if r is None:
        r = TRUE
        ats = [_atoms[v] for v in sorted(vs)]
        for i, a in enumerate(ats):
            if a.op == 'lt0' and sign_nonneg(a.args[0]):
                r = r & ~atom(a)
            if a.op == 'le0' and sign_pos(a.args[0]):
                r = r & ~atom(a)
            if a.op == 'eq0' and (sign_pos(a.args[0])
                                  or sign_pos(neg(a.args[0]))):
                r = r & ~atom(a)
            if a.op == 'le0' and sign_nonneg(neg(a.args[0])) and nanfree:
                r = r & atom(a)
            if a.op == 'lt0' and sign_pos(neg(a.args[0])) and (
                    nanfree or counting(a.args[0])):
                r = r & atom(a)
            for b in ats[i + 1:]:
                ax = _pair_axiom(a, b, nanfree)
                if ax is not TRUE:
                    r = r & ax
        if nanfree:
            # trichotomy
            lts = {a.args[0]: a for a in ats if a.op == 'lt0'}
            for a in ats:
                if a.op == 'eq0':
                    p = lts.get(a.args[0])
                    q = lts.get(neg(a.args[0]))
                    if p is not None and q is not None:
                        r = r & (atom(a) | atom(p) | atom(q))
        for a in ats:
            # NaN or comparable
            if a.op == 'isnan' and not nanfree:
                e = a.args[0]
                for b in ats:
                    if b.op in ('le0', 'lt0') and e in (
                            b.args[0], neg(b.args[0])):
                        o = 'lt0' if b.op == 'le0' else 'le0'
                        c = mk(o, neg(b.args[0]))
                        if c in ats:
                            r = r & (atom(a) | atom(b) | atom(c))
        for a in ats:
            # an element with property f shows that any(f)
            if a.op == 'any' and isinstance(a.args[0], B):
                f = a.args[0]
                sup = support(f)
                els = [y for y in ats if rank(y)]
                if any(_atoms[x] in els or any(
                        _pair_axiom(_atoms[x], y, nanfree) is not TRUE
                        or _pair_axiom(y, _atoms[x], nanfree) is not TRUE
                        for y in els) for x in sup):
                    r = r & (~f | atom(a))
                    if not sup <= vs:
                        r = r & _related(frozenset(
                            sup | {x for x in vs if rank(_atoms[x])}),
                            nanfree)
        _thmemo[key] = r
    return r


def theory(*bs, nanfree=False):
    vs = frozenset().union(*(support(b) for b in bs)) if bs else frozenset()
    return _related(vs, nanfree)


def sat(b, nanfree=False):
    if b is FALSE:
        return False
    if b is TRUE:
        return True
    q = b & theory(b, nanfree=nanfree)
    return q is not FALSE and _feasible(q, nanfree)


def entails(a, b, nanfree=False, extra=TRUE):
    """a (and theory, extra) implies b."""
    q = a & extra & ~b
    if q is FALSE:
        return True
    q = q & theory(q, nanfree=nanfree)
    return q is FALSE or not _feasible(q, nanfree)


_coremem = {}


def _core(g, fs, nanfree):
    """Smallest of the properties fs found that an element with property g
    cannot avoid, or None if it can avoid all of them."""
    key = (g, frozenset(fs), nanfree)
    if key in _coremem:
        return _coremem[key]
    r = None
    if entails(g, disj(*fs), nanfree):
        r = list(fs)
        for f in list(r):
            rest = [x for x in r if x is not f]
            if entails(g, disj(*rest), nanfree):
                r = rest
    _coremem[key] = r
    return r


def _feasible(q, nanfree):
    """Some assignment of q has elements that witness each any(...)."""
    anys = [v for v in support(q) if _atoms[v].op == 'any'
            and isinstance(_atoms[v].args[0], B)]
    if len(anys) < 3:
        return True
    for _ in range(60):
        b, yes, no = q, [TRUE], []
        while b is not TRUE:
            v = b.v
            val = b.hi is not FALSE and (
                b.lo is FALSE or _atoms[v].op != 'any')
            if v in anys:
                (yes if val else no).append(_atoms[v].args[0])
            b = b.hi if val else b.lo
        clause = None
        if no:
            for g in yes:
                c = _core(g, no, nanfree)
                if c is not None:
                    clause = disj(
                        *[atom(mk('any', f)) for f in c],
                        ~atom(mk('any', g)) if g is not TRUE else FALSE)
                    break
        if clause is None:
            return True
        q = q & clause
        if q is FALSE:
            return False
    return True


def equivalent(a, b, nanfree=False, under=TRUE):
    return entails(a & under, b, nanfree) and entails(b & under, a, nanfree)


def bsimp(b):
    th = theory(b)
    if th is TRUE:
        return b
    return constrain(b, th)


# --------------------------------------------------------------------------
# constants and leaves
def num(v):
    if not isinstance(v, Fraction):
        if isinstance(v, float):
            if v != v:
                return NAN
            if v == float('inf'):
                return INF
            if v == -float('inf'):
                return neg(INF)
            v = Fraction(repr(v))
        else:
            v = Fraction(v)
    return mk('num', v)


ONE = mk('num', Fraction(1))
ZERO = mk('num', Fraction(0))
INF = mk('inf')
NAN = mk('nan')
NONE = mk('const', None)
TRUET = mk('b', TRUE)
FALSET = mk('b', FALSE)
ABSENT = mk('absent')


def const(v):
    if isinstance(v, bool):
        return TRUET if v else FALSET
    if isinstance(v, (int, float)):
        return num(v)
    return mk('const', v)


def bt(b):
    return mk('b', b)


SYMINFO = {}


def sym(name, **info):
    t = mk('sym', name)
    if info or name not in SYMINFO:
        SYMINFO.setdefault(name, {}).update(info)
    return t


def is_const(t):
    return (
        t.op in ('num', 'const', 'inf', 'nan', 'enum')
        or t.op == 'b' and t.args[0] in (TRUE, FALSE)
    )


def numval(t):
    if t.op == 'num':
        return t.args[0]
    if t is TRUET:
        return Fraction(1)
    if t is FALSET:
        return Fraction(0)
    return None


EXTRANK = {}  # opaque operator name -> rank or function of args


def rank(t):
    r = t._rk
    if r == -1:
        r = t._rk = _rank(t)
    return r


def _maxrank(ts):
    m = 0
    for t in ts:
        r = rank(t)
        if r is None:
            return None
        m = max(m, r)
    return m


def _rank(t):
    op, a = t.op, t.args
    if op in ('num', 'const', 'inf', 'nan', 'enum', 'vsum', 'norm', 'rmin',
              'rmax', 'len', 'argmin', 'argmax', 'fstr', 'rsum', 'isnone'):
        return 0
    if op == 'sym':
        return SYMINFO.get(a[0], {}).get('rank')
    if op == 'mu':
        return a[2] if len(a) > 2 else None
    if op == 'lin':
        return _maxrank(m for m, _ in a[0])
    if op == 'prod':
        return _maxrank(m for m, _ in a[0])
    if op == 'cases':
        rs = {rank(l) for _, l in a[0] if l.op not in ('absent',)}
        return rs.pop() if len(rs) == 1 else None
    if op == 'ew':
        m = _maxrank(l for _, l in a[0])
        if m == 0:
            g = None
            for b, _ in a[0]:
                for at in batoms(b):
                    r = rank(at)
                    if r:
                        g = max(g or 0, r)
            return g
        return m
    if op == 'b':
        b = a[0]
        m = 0
        for at in batoms(b):
            r = rank(at)
            if r is None:
                return None
            m = max(m, r)
        return m
    if op in ('lt0', 'le0', 'eq0', 'isfinite', 'isnan', 'member'):
        return rank(a[0])
    if op in ('zeros', 'ones', 'empty'):
        return a[0]
    if op in ('outer', 'diag', 'eye', 'csc', 'col'):
        return 2
    if op in ('idx',):
        return 1
    if op in ('impure', 'iter_index'):
        return 0
    if op == 'ewfun':
        return _maxrank(a[1:])
    if op == 'chain':
        return a[0]
    if op == 'T':
        return rank(a[0])
    if op in ('abs', 'sign', 'tofloat', 'ewfun', 'real'):
        return rank(a[-1])
    if op in ('min', 'max'):
        return _maxrank(a[0])
    if op == 'gather':
        return rank(a[0])
    if op == 'diagonal':
        return 1
    if op == 'getitem':
        return _getitem_rank(a[0], a[1])
    if op == 'setitem':
        return rank(a[0])
    if op == 'call':
        r = EXTRANK.get(a[0])
        if callable(r):
            return r(*a[1:])
        return r
    if op in ('any', 'opq_any', 'truth', 'eq', 'isinst', 'has', 'exc',
              'more', 'same', 'in'):
        return 0
    if op == 'dictget':
        return 0
    return None


def _getitem_rank(x, k):
    r = rank(x)
    if x.op == 'shape':
        return 0
    if r is None:
        return None
    ks = k.args[0] if k.op == 'tuple' else (k,)
    for q in ks:
        if q.op == 'slice':
            continue
        if q.op == 'const' and q.args[0] is None:
            r += 1
            continue
        rq = rank(q)
        if rq == 0 and q.op != 'b':
            r -= 1
        elif rq is None:
            return None
    return r


def tup(*ts):
    return mk('tuple', tuple(ts))


# --------------------------------------------------------------------------
# case tables
def mkcases(pairs, kind='cases'):
    """Canonical case table from (guard, leaf); nested tables are flattened.

    Guards have to be disjoint and to cover all that matters."""
    acc = {}
    order = []

    def add(g, l):
        if g is FALSE:
            return
        if l.op == kind:
            for g2, l2 in l.args[0]:
                add(g & g2, l2)
            return
        if l in acc:
            acc[l] = acc[l] | g
        else:
            acc[l] = g
            order.append(l)

    for g, l in pairs:
        add(g, l)
    if len(acc) == 1:
        return order[0]
    if not acc:
        return mk('undef')
    # drop infeasible guards
    its = []
    for l, g in acc.items():
        if sat(g):
            its.append((bsimp(g), l))
    if len(its) == 1:
        return its[0][1]
    if not its:
        return mk('undef')
    # indicator table of booleans collapses into a boolean
    if all(l.op == 'b' for _, l in its):
        r = FALSE
        for g, l in its:
            r = r | (g & l.args[0])
        return bt(r)
    its.sort(key=lambda p: p[1].id)
    if kind == 'cases':
        its = _merge_any(its)
        if len(its) == 1:
            return its[0][1]
    d = _dictget_idiom(its)
    if d is not None:
        return d
    return mk(kind, tuple(its))


def _dictget_idiom(its):
    if len(its) != 2:
        return None
    for (g1, l1), (_, l2) in (its, its[::-1]):
        if l1.op == 'dictitem' and g1 is atom(mk('has', *l1.args)):
            return mk('dictget', l1.args[0], l1.args[1], l2)
    return None


def _merge_any(its):
    """cases(any(m): ew(m: a, else b) | not any(m): b)  ->  ew(m: a, else b)

    A table over an elementwise mask says nothing new when no element is
    selected."""
    changed = True
    while changed and len(its) > 1:
        changed = False
        for i, (g1, l1) in enumerate(its):
            if l1.op != 'ew':
                continue
            for j, (g2, l2) in enumerate(its):
                if i == j:
                    continue
                # under g2 no element satisfies the guards of l1 with leaf
                # other than l2
                ok = True
                for m, leaf in l1.args[0]:
                    if leaf is l2:
                        continue
                    if l2.op == 'ew' and any(
                        leaf is q and entails(m, mm)
                        for mm, q in l2.args[0]
                    ):
                        continue
                    if not entails(g2, ~any_(m)):
                        ok = False
                        break
                if ok:
                    its = [p for k, p in enumerate(its) if k not in (i, j)]
                    its.append((g1 | g2, l1))
                    its.sort(key=lambda p: p[1].id)
                    changed = True
                    break
            if changed:
                break
    return its


def phi(g, a, b):
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is b:
        return a
    return mkcases(((g, a), (~g, b)))


def ew(g, a, b):
    """Elementwise selection."""
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is b:
        return a
    if a.op == 'cases' or b.op == 'cases':
        return lift(lambda x, y: ew(g, x, y), a, b)
    if all(not rank(at) for at in batoms(g)):
        return phi(g, a, b)
    return mkcases(((g, a), (~g, b)), 'ew')


def setadd(v, x):
    """Set with another element; equal sets of numbers are equal terms."""
    s = v
    while s.op == 'setadd':
        if s.args[1] is x:
            return v
        s = s.args[0]
    if v.op == 'setadd' and x.op == v.args[1].op == 'num' and \
            x.args[0] < v.args[1].args[0]:
        return mk('setadd', setadd(v.args[0], x), v.args[1])
    return mk('setadd', v, x)


def simplify(t, pc):
    """Drop cases that are impossible under pc."""
    if t.op == 'cases':
        its = []
        for g, l in t.args[0]:
            g2 = constrain(g, pc)
            if g2 is not FALSE and sat(g2 & pc):
                its.append((g2, l))
        if len(its) == 1:
            return its[0][1]
        return mkcases(its)
    if t.op == 'b':
        b = t.args[0]
        r = constrain(b, pc)
        if r is TRUE or r is FALSE:
            return bt(r)
    return t


LIFTMAX = 48


def lift(f, *args):
    """Apply f to all combinations of scalar cases."""
    for i, a in enumerate(args):
        if a.op == 'cases':
            n = len(a.args[0])
            if n > LIFTMAX:
                return None
            out = []
            for g, l in a.args[0]:
                rest = [
                    simplify(x, g) if x.op == 'cases' else x
                    for x in args[i + 1:]
                ]
                r = lift(f, *args[:i], l, *rest)
                if r is None:
                    return None
                out.append((g, r))
            return mkcases(out)
    return f(*args)


def lift_ew(f, *args):
    """Apply an elementwise f below cases, elementwise tables and gathers."""
    if any(a.op == 'cases' for a in args):
        return lift(lambda *xs: lift_ew(f, *xs), *args)
    gk = None
    for a in args:
        if a.op == 'gather':
            gk = a.args[1]
    if gk is not None:
        ok = True
        st = []
        for a in args:
            if a.op == 'gather' and a.args[1] is gk:
                st.append(a.args[0])
            elif rank(a) == 0:
                st.append(a)
            else:
                ok = False
        if ok:
            return gather(lift_ew(f, *st), gk)
    for i, a in enumerate(args):
        if a.op == 'b' and a.args[0] not in (TRUE, FALSE):
            b = a.args[0]
            k = bool(rank(a))
            a = (ew if k else phi)(b, ONE, ZERO)
            return lift_ew(f, *args[:i], a, *args[i + 1:])
    for i, a in enumerate(args):
        if a.op == 'ew':
            out = []
            for g, l in a.args[0]:
                rest = []
                for x in args[i + 1:]:
                    if x.op == 'ew':
                        sub = [
                            (constrain(g2, g), l2)
                            for g2, l2 in x.args[0]
                            if sat(g2 & g)
                        ]
                        x = (
                            sub[0][1]
                            if len(sub) == 1
                            else mkcases(sub, 'ew')
                        )
                    rest.append(x)
                out.append((g, lift_ew(f, *args[:i], l, *rest)))
            return mkcases(out, 'ew')
    return f(*args)


# --------------------------------------------------------------------------
# linear combinations and products
def lin_items(t):
    if t.op == 'num':
        return ((ONE, t.args[0]),) if t.args[0] else ()
    if t.op == 'lin':
        return t.args[0]
    if t is TRUET:
        return ((ONE, Fraction(1)),)
    if t is FALSET:
        return ()
    return ((t, Fraction(1)),)


def from_lin(d):
    its = [(m, k) for m, k in d.items() if k]
    if any(m is NAN for m, _ in its):
        return NAN
    zs = [m for m, _ in its if m.op == 'zeros']
    if zs:
        rest = [(m, k) for m, k in its if m.op != 'zeros']
        if not rest:
            return max(zs, key=lambda m: m.args[0] or 0)
        rr = _maxrank(m for m, _ in rest)
        if rr is None or rr >= max((z.args[0] or 0) for z in zs):
            its = rest
        else:
            # scalar + zeros(n): broadcast
            z = max(zs, key=lambda m: m.args[0] or 0)
            its = []
            for m, k in rest:
                m2 = mul(m, mk('ones', z.args[0]))
                its.append((m2, k))
    if not its:
        return ZERO
    if len(its) == 1:
        m, k = its[0]
        if m is ONE:
            return num(k)
        if k == 1:
            return m
    its.sort(key=lambda p: p[0].id)
    return mk('lin', tuple(its))


def _has_ones(m):
    return m.op == 'ones' or m.op == 'prod' and any(
        b.op == 'ones' for b, _ in m.args[0])


def _absorb_ones(d):
    """c*ones beside a summand of that rank is c, as broadcasting has it."""
    os = [m for m in d if _has_ones(m)]
    if not os or len(os) == len(d):
        return d
    rr = max((rank(m) or 0 for m, k in d.items()
              if k and m not in os), default=0)
    r = {}
    for m, k in d.items():
        ts = ((m, k),)
        if m in os and (rank(m) or 0) <= rr:
            ts = lin_items(scale(_build_prod(
                {b: e for b, e in mono_items(m) if b.op != 'ones'}), k))
        for x, c in ts:
            r[x] = r.get(x, 0) + c
    return r


def add(*ts):
    def f(*xs):
        d = {}
        for x in xs:
            for m, k in lin_items(x):
                d[m] = d.get(m, 0) + k
        return from_lin(_absorb_ones(d))

    ts = [strip_csc(t) for t in ts] if not all(
        is_sparse(t) for t in ts) else list(ts)
    if all(is_sparse(t) for t in ts) and len(ts) > 1:
        return mk('csc', add(*[t.args[0] for t in ts]))
    if len(ts) > 2:
        r = ts[0]
        for t in ts[1:]:
            r = add(r, t)
        return r
    r = lift_ew(f, *ts)
    return r if r is not None else f(*ts)


def scale(t, k):
    k = Fraction(k)
    if k == 0:
        return mul(ZERO, t)

    def f(x):
        return from_lin({m: c * k for m, c in lin_items(x)})

    if is_sparse(t):
        return mk('csc', scale(t.args[0], k))
    return lift_ew(f, t) or f(t)


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mono_items(m):
    """Factors (base, exponent) of a monomial."""
    if m is ONE:
        return ()
    if m.op == 'prod':
        return m.args[0]
    return ((m, Fraction(1)),)


def _mono_mul(ms):
    """Product of factor lists -> term (may be a lin)."""
    d = {}
    for its in ms:
        for b, e in its:
            d[b] = d.get(b, 0) + e
    return _build_prod(d)


def _build_prod(d, coef=Fraction(1)):
    expand = []
    out = {}
    for b, e in d.items():
        if e == 0:
            continue
        if b.op == 'num':
            v = b.args[0]
            if e.denominator == 1:
                if v == 0 and e < 0:
                    out[b] = e
                    continue
                coef *= v ** int(e)
            else:
                r = _ratpow(v, e)
                if r is None:
                    out[b] = e
                else:
                    coef *= r
        elif b.op == 'lin' and e.denominator == 1 and 0 < e <= 4:
            expand.append((b, int(e)))
        elif b.op == 'abs' and e.denominator == 1 and e % 2 == 0:
            out[b.args[0]] = out.get(b.args[0], 0) + e
        else:
            out[b] = out.get(b, 0) + e
    out = {b: e for b, e in out.items() if e}
    cols = [b for b in out if b.op == 'col' and out[b] > 0]
    rows = [b for b in out if b.op == 'T' and b.args[0].op == 'col'
            and out[b] > 0]
    if cols and rows:
        u = v = ONE
        for b in cols:
            u = mul(u, powr(b.args[0], out.pop(b)))
        for b in rows:
            v = mul(v, powr(b.args[0].args[0], out.pop(b)))
        r = mul(_build_prod(out, coef), outer(u, v))
        for b, e in expand:
            for _ in range(e):
                r = mul(r, b)
        return r
    zs = [b for b in out if b.op == 'zeros' and out[b] > 0]
    if zs:
        r = max((b.args[0] if b.op in ('zeros', 'ones') else (rank(b) or 0))
                for b in out)
        return mk('zeros', r)
    ones = [b for b in out if b.op == 'ones']
    if ones:
        for b in ones:
            del out[b]
        o = max(ones, key=lambda b: b.args[0])
        rr = _maxrank(out) if out else 0
        if rr is not None and rr < o.args[0]:
            out[o] = Fraction(1)
    if not out:
        r = num(coef)
    else:
        its = tuple(sorted(out.items(), key=lambda p: p[0].id))
        if len(its) == 1 and its[0][1] == 1:
            r = its[0][0]
        else:
            r = mk('prod', its)
        if coef != 1:
            r = from_lin({r: coef})
    for b, e in expand:
        for _ in range(e):
            r = mul(r, b)
    return r


def _ratpow(v, e):
    if v < 0:
        return None
    n, dn = v.numerator, v.denominator
    if e.denominator == 2:
        from math import isqrt

        a, b = isqrt(n), isqrt(dn)
        if a * a == n and b * b == dn:
            return Fraction(a, b) ** int(e * 2)
    return None


def mul(a, b):
    if is_sparse(a) or is_sparse(b):
        if rank(a) == 0 or rank(b) == 0:
            s, m = (a, b) if rank(a) == 0 else (b, a)
            return mk('csc', mul(s, m.args[0]))
        return dot(a, b)

    def f(x, y):
        d = {}
        for m1, k1 in lin_items(x):
            for m2, k2 in lin_items(y):
                p = _mono_mul([mono_items(m1), mono_items(m2)])
                for m, k in lin_items(p):
                    d[m] = d.get(m, 0) + k * k1 * k2
        if not d:
            r = _maxrank((x, y))
            if r:
                return mk('zeros', r)
        return from_lin(d)

    return lift_ew(f, a, b) or f(a, b)


def powr(t, e):
    e = Fraction(e)

    def f(x):
        if e == 1:
            return x
        if x.op == 'lin':
            its = x.args[0]
            if len(its) == 1:
                m, k = its[0]
                if e.denominator == 1 or k > 0:
                    return mul(
                        powr(num(k), e) if e.denominator != 1 or k != 0
                        else ONE, powr(m, e))
                return mk('prod', ((x, e),))
            if e.denominator == 1 and 0 < e <= 3:
                r = x
                for _ in range(int(e) - 1):
                    r = mul(r, x)
                return r
            # pull out the leading coefficient
            k = its[0][1]
            k = abs(k)
            if k != 1:
                y = from_lin({m: c / k for m, c in its})
                return mul(powr(num(k), e), powr(y, e))
            if e.denominator == 1 and its[0][1] < 0:
                y = from_lin({m: -c for m, c in its})
                return scale(powr(y, e), -1 if e % 2 else 1)
            return mk('prod', ((x, e),))
        if x.op == 'num':
            v = x.args[0]
            if e.denominator == 1 and (v != 0 or e > 0):
                return num(v ** int(e))
            r = _ratpow(v, e)
            if r is not None:
                return num(r)
            return mk('prod', ((x, e),))
        if x.op == 'prod':
            d = {}
            for b, k in x.args[0]:
                if e.denominator != 1 and k % 2 == 0 and (
                    (k * e) % 2 != 0
                ):
                    b = abs_(b)
                    for b2, k2 in mono_items(b):
                        d[b2] = d.get(b2, 0) + k * e * k2
                else:
                    d[b] = d.get(b, 0) + k * e
            return _build_prod(d)
        if x.op == 'zeros' and e > 0:
            return x
        return _build_prod({x: e})

    return lift_ew(f, t) or f(t)


def div(a, b):
    if is_sparse(a):
        return mk('csc', div(a.args[0], b))
    return mul(a, powr(b, -1))


def sqrt_(t):
    return powr(t, Fraction(1, 2))


# --------------------------------------------------------------------------
# signs
def sign_nonneg(t):
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op in ('abs', 'norm', 'inf', 'zeros', 'ones', 'len'):
        return True
    if t.op == 'sym':
        return bool(SYMINFO.get(t.args[0], {}).get('nonneg'))
    if t.op == 'lin':
        return all(
            (sign_nonneg(m) and k > 0) or m is ONE and k >= 0
            for m, k in t.args[0]
        ) or perfect_square(t)
    if t.op == 'zeros':
        return True
    if t.op == 'prod':
        return all(
            e.denominator == 1 and e % 2 == 0 or sign_nonneg(b)
            or e.denominator == 2
            for b, e in t.args[0]
        )
    if t.op == 'vsum':
        return sign_nonneg(t.args[0])
    if t.op in ('cases', 'ew'):
        return all(sign_nonneg(l) for _, l in t.args[0])
    if t.op == 'max':
        return any(sign_nonneg(x) for x in t.args[0])
    if t.op == 'min':
        return all(sign_nonneg(x) for x in t.args[0])
    if t.op in ('rmin', 'rmax', 'gather'):
        return sign_nonneg(t.args[0])
    return False


_sqmemo = {}


def perfect_square(t):
    """Is the linear combination c * (sum of terms)**2 with c >= 0?"""
    r = _sqmemo.get(t)
    if r is None:
        _sqmemo[t] = False
        r = _sqmemo[t] = _perfect_square(t)
    return r


def _perfect_square(t):
    its = [(dict(mono_items(m)), k, m) for m, k in t.args[0]]
    if len(its) not in (3, 6) or any(m is ONE for _, _, m in its):
        return False
    common = {}
    for b, e in its[0][0].items():
        e2 = min(d.get(b, Fraction(0)) for d, _, _ in its)
        if e2 > 0 and e2.denominator == 1 and sign_nonneg(b):
            common[b] = e2
    roots = []
    for d, k, _ in its:
        d = {b: e - common.get(b, 0) for b, e in d.items()}
        d = {b: e for b, e in d.items() if e}
        if all(e.denominator == 1 and e % 2 == 0 for e in d.values()):
            if k <= 0:
                return False
            q = _ratpow(Fraction(k), Fraction(1, 2))
            if q is None:
                return False
            roots.append(scale(_build_prod(
                {b: e / 2 for b, e in d.items()}), q))
    n = len(roots)
    if n * (n + 1) // 2 != len(its):
        return False
    c = _build_prod(common)
    for bits in range(2 ** (n - 1)):
        s = roots[0]
        for i in range(1, n):
            s = add(s, roots[i] if not bits >> (i - 1) & 1
                    else neg(roots[i]))
        if mul(c, mul(s, s)) is t:
            return True
    return False


def sign_pos(t):
    if t.op == 'num':
        return t.args[0] > 0
    if t.op == 'inf':
        return True
    if t.op == 'sym':
        return bool(SYMINFO.get(t.args[0], {}).get('pos'))
    if t.op == 'lin':
        return sign_nonneg(t) and any(
            m is ONE and k > 0 or sign_pos(m) for m, k in t.args[0])
    if t.op == 'max':
        return any(sign_pos(x) for x in t.args[0])
    if t.op == 'min':
        return all(sign_pos(x) for x in t.args[0])
    return False


def counting(t):
    """Made of numbers and lengths only (never NaN)."""
    if t.op in ('num', 'len'):
        return True
    if t.op == 'lin':
        return all(counting(m) for m, _ in t.args[0])
    if t.op in ('min', 'max'):
        return all(counting(x) for x in t.args[0])
    return False


# --------------------------------------------------------------------------
# elementwise functions
def abs_(t):
    def f(x):
        its = lin_items(x)
        if not its:
            return x
        if len(its) == 1:
            m, k = its[0]
            if m is ONE:
                return num(abs(k))
            d = {}
            for b, e in mono_items(m):
                if sign_nonneg(b) or (
                    e.denominator == 1 and e % 2 == 0
                ) or e.denominator == 2:
                    d[b] = d.get(b, 0) + e
                else:
                    q = mk('abs', b) if b.op != 'tofloat' else mk('abs', b)
                    d[q] = d.get(q, 0) + e
            return scale(_build_prod(d), abs(k))
        if sign_nonneg(x):
            return x
        k = its[0][1]
        if k < 0:
            x = from_lin({m: -c for m, c in its})
        return mk('abs', x)

    return lift_ew(f, t) or f(t)


def sign_(t):
    def f(x):
        v = numval(x)
        if v is not None:
            return num((v > 0) - (v < 0))
        k = bool(rank(x))
        sel = ew if k else phi
        return sel(lt(ZERO, x), ONE,
                   sel(lt(x, ZERO), num(-1), sel(eqn(x, ZERO), ZERO, NAN)))

    return lift_ew(f, t) or f(t)


def natural(t):
    """Counts and sums of counts, which are never NaN."""
    return all(m is ONE or m.op == 'len' or m.op == 'sym' and SYMINFO.get(
        m.args[0], {}).get('integer') for m, _ in lin_items(t))


def minmax(op, *ts):
    """n-ary elementwise / scalar minimum or maximum."""

    def f(*xs):
        s = set()
        c = None
        for x in xs:
            for y in (x.args[0] if x.op == op else (x,)):
                v = numval(y)
                if v is not None:
                    c = v if c is None else (
                        min(c, v) if op == 'min' else max(c, v))
                elif y is INF and op == 'min':
                    pass
                else:
                    s.add(y)
        if c is not None:
            for y in list(s):
                if natural(y):
                    d = add(y, num(-c))
                    if op == 'max' and sign_nonneg(d):
                        break
                    if op == 'min' and sign_nonneg(d):
                        s.discard(y)
            else:
                s.add(num(c))
        if not s:
            return INF
        if len(s) == 1:
            return s.pop()
        return mk(op, tuple(sorted(s, key=lambda t: t.id)))

    return lift_ew(f, *ts) or f(*ts)


def reduce_minmax(op, t):
    """np.min / np.max over all elements."""

    def f(x):
        if rank(x) == 0:
            return x
        if x.op in ('zeros',):
            return ZERO
        if x.op == 'ones':
            return ONE
        its = lin_items(x)
        if len(its) == 1:
            m, k = its[0]
            sc, core = split_scalar(m)
            if core is ONE:
                return x
            if sc is ONE and k != 1:
                o = op if k > 0 else ('rmax' if op == 'rmin' else 'rmin')
                return scale(mk(o, core), k)
            if core.op == 'ones':
                return scale(sc, k)
        if x.op == 'ew' and op == 'rmin':
            # elements that are infinite do not count
            x = unit_inf(x)
            g = TRUE
            if x.op == 'ew':
                for m, l in x.args[0]:
                    if l is INF:
                        g = any_(~m)
            if g is not TRUE:
                return phi(g, mk(op, x), INF)
        return mk(op, x)

    return lift(f, t) or f(t)


def unit(l):
    """inf for inf * ones."""
    if l.op != 'prod':
        return l
    if any(f is INF for f, _ in l.args[0]) and all(
            f is INF or f.op == 'ones' for f, _ in l.args[0]):
        return INF
    return l


def unit_inf(x):
    """Conditional array with inf * ones written as inf."""
    its = [(m, unit(l)) for m, l in x.args[0]]
    r = its[-1][1]
    for m, l in reversed(its[:-1]):
        r = ew(m, l, r)
    return r


def ewfun(name, *ts):
    def f(*xs):
        return mk('ewfun', name, *xs)

    return lift_ew(f, *ts) or f(*ts)


def real_(t):
    return t


# --------------------------------------------------------------------------
# linear algebra
def is_sparse(t):
    return t.op == 'csc' or t.op == 'sym' and SYMINFO.get(
        t.args[0], {}).get('sparse', False)


def strip_csc(t):
    return t.args[0] if t.op == 'csc' else t


def split_scalar(m):
    """monomial -> (scalar part, array part)"""
    s, a = {}, {}
    for b, e in mono_items(m):
        r = rank(b)
        if r == 0:
            s[b] = e
        else:
            a[b] = e
    return (
        (_build_prod(s) if s else ONE),
        (_build_prod(a) if a else ONE),
    )


def transpose(t):
    t = strip_csc(t) if t.op == 'csc' else t

    def f(x):
        r = rank(x)
        if r is not None and r <= 1:
            return x
        if x.op == 'lin':
            return add(*[scale(f(m), k) for m, k in x.args[0]]) if len(
                x.args[0]) > 1 else scale(f(x.args[0][0][0]), x.args[0][0][1])
        if x.op == 'prod':
            return _build_prod(
                {(b if rank(b) == 0 else f(b)): e for b, e in x.args[0]})
        if x.op == 'ew':
            return mk('T', x)
        if x.op in ('diag', 'eye', 'zeros', 'ones'):
            return x
        if x.op == 'outer':
            return mk('outer', x.args[1], x.args[0])
        if x.op == 'T':
            return x.args[0]
        if x.op == 'chain':
            return mkchain([f(y) for y in reversed(x.args[1])])
        if x.op == 'sym' and SYMINFO.get(x.args[0], {}).get('symmetric'):
            return x
        if x.op == 'tofloat':
            return mk('tofloat', f(x.args[0]))
        return mk('T', x)

    return lift(f, t) or f(t)


def mkchain(fs):
    """Product of matrices/vectors; fs are non-lin, non-scalar factors."""
    # local simplification
    fs = list(fs)
    changed = True
    scal = ONE
    while changed:
        changed = False
        for i, x in enumerate(fs):
            if x.op == 'eye' and len(fs) > 1:
                del fs[i]
                changed = True
                break
            if x.op == 'chain':
                fs[i:i + 1] = list(x.args[1])
                changed = True
                break
            if i + 1 < len(fs):
                y = fs[i + 1]
                if x.op == 'diag' and y.op == 'diag':
                    fs[i:i + 2] = [mk('diag', mul(x.args[0], y.args[0]))]
                    return _rechain(scal, fs)
                if x.op == 'diag' and rank(y) == 1:
                    fs[i:i + 2] = [mul(x.args[0], y)]
                    return _rechain(scal, fs)
                if rank(x) == 1 and y.op == 'diag' and i == 0:
                    fs[i:i + 2] = [mul(x, y.args[0])]
                    return _rechain(scal, fs)
            if x.op == 'outer':
                a, b = x.args
                if i + 1 < len(fs):
                    rest = _rechain(ONE, fs[i + 1:])
                    left = _rechain(ONE, fs[:i]) if i else None
                    rr = rank(rest)
                    if rr == 1:
                        r = mul(a, dot(b, rest))
                    else:
                        r = outer(a, dot(transpose(rest), b))
                    if left is not None:
                        r = dot(left, r)
                    return r
                if i > 0:
                    left = _rechain(ONE, fs[:i])
                    if rank(left) == 1:
                        return mul(dot(left, a), b)
                    return outer(dot(left, a), b)
    if len(fs) == 1:
        return fs[0]
    r0, r1 = rank(fs[0]), rank(fs[-1])
    if r1 == 1 and fs[0].op == 'diag':
        return mul(fs[0].args[0], mkchain(fs[1:]))
    if r0 == 1 and fs[-1].op == 'diag':
        return mul(fs[-1].args[0], mkchain(fs[:-1]))
    if r0 == 1 and len(fs) == 2 and r1 == 1:
        return vsum(mul(fs[0], fs[1]))
    if r0 == 1 and r1 == 1:
        rev = [fs[-1]] + [transpose(m) for m in reversed(fs[1:-1])] + [fs[0]]
        k1 = tuple(x.id for x in fs)
        k2 = tuple(x.id for x in rev)
        if k2 < k1:
            fs = rev
        if k1 == k2 and len(fs) % 2 == 0:
            # the product of a vector with itself
            return powr(norm_(mkchain(fs[len(fs) // 2:])), 2)
        return mk('chain', 0, tuple(fs))
    if r0 == 1:
        # row vector times matrices -> column form
        fs = [transpose(m) for m in reversed(fs[1:])] + [fs[0]]
        return mk('chain', 1, tuple(fs))
    if r1 == 1:
        return mk('chain', 1, tuple(fs))
    return mk('chain', 2, tuple(fs))


def _rechain(scal, fs):
    r = fs[0]
    for x in fs[1:]:
        r = dot(r, x)
    return mul(scal, r) if scal is not ONE else r


def dot(a, b):
    sp = is_sparse(a) and is_sparse(b)
    a, b = strip_csc(a), strip_csc(b)
    if sp:
        return mk('csc', dot(a, b))

    def f(x, y):
        rx, ry = rank(x), rank(y)
        if rx == 0 or ry == 0:
            return mul(x, y)
        if x.op == 'ew' and rx == 1 and y.op != 'ew' and ry == 1:
            return vsum(mul(x, y))
        if rx == 1 and ry == 1 and (x.op == 'ew' or y.op == 'ew'):
            return vsum(mul(x, y))
        if x.op == 'diag' and y.op == 'ew' and ry == 1:
            return mul(x.args[0], y)
        if rx is None or ry is None:
            # scalar multiples still commute out
            d = {}
            for m1, k1 in lin_items(x):
                for m2, k2 in lin_items(y):
                    s1, c1 = split_scalar(m1)
                    s2, c2 = split_scalar(m2)
                    c = mk('call', 'dot', c1, c2)
                    p = mul(mul(s1, s2), c)
                    for m, k in lin_items(p):
                        d[m] = d.get(m, 0) + k * k1 * k2
            return from_lin(d)
        if x.op == 'zeros' or y.op == 'zeros':
            r = rx + ry - 2
            return mk('zeros', r) if r else ZERO
        out = []
        for m1, k1 in lin_items(x):
            s1, c1 = split_scalar(m1)
            for m2, k2 in lin_items(y):
                s2, c2 = split_scalar(m2)
                if c1 is ONE or c2 is ONE:
                    p = mk('call', 'dot', m1, m2)
                else:
                    p = _dot_core(c1, c2)
                    p = mul(mul(s1, s2), p)
                out.append(scale(p, k1 * k2))
        r = out[0]
        for o in out[1:]:
            r = add(r, o)
        return r

    r = lift(f, a, b)
    return r if r is not None else f(a, b)


def _factors(x):
    """Factors of a matrix product; d * (M v) is diag(d) M v."""
    if x.op == 'chain':
        return list(x.args[1])
    if x.op == 'prod' and rank(x) == 1:
        ch = [b for b, e in x.args[0] if b.op == 'chain' and e == 1
              and b.args[0] == 1]
        if len(ch) == 1:
            rest = _build_prod({b: e for b, e in x.args[0]
                                if b is not ch[0]})
            return [mk('diag', rest)] + list(ch[0].args[1])
    return [x]


def _dot_core(x, y):
    fx = _factors(x)
    fy = _factors(y)
    rx, ry = rank(x), rank(y)
    if rx == 1:
        # a vector on the left acts as row
        fx = [fx[-1]] + [transpose(m) for m in reversed(fx[:-1])]
    if ry == 1 and rx == 2 or ry == 2 and rx == 2 or rx == 1:
        return mkchain(fx + fy)
    return mk('call', 'dot', x, y)


def outer(a, b):
    def f(x, y):
        if x.op == 'zeros' or y.op == 'zeros':
            return mk('zeros', 2)
        if x.op == 'ew' or y.op == 'ew':
            return mk('outer', x, y)
        out = []
        for m1, k1 in lin_items(x):
            s1, c1 = split_scalar(m1)
            for m2, k2 in lin_items(y):
                s2, c2 = split_scalar(m2)
                out.append(scale(mul(mul(s1, s2), mk('outer', c1, c2)),
                                 k1 * k2))
        if not out:
            return mk('zeros', 2)
        r = out[0]
        for o in out[1:]:
            r = add(r, o)
        return r

    return lift(f, a, b) or f(a, b)


def _sum_prod(c):
    if c.op == 'prod':
        ch = [b for b, e in c.args[0] if b.op == 'chain' and e == 1
              and b.args[0] == 1]
        if len(ch) == 1 and len(c.args[0]) > 1:
            rest = _build_prod({b: e for b, e in c.args[0]
                                if b is not ch[0]})
            return mkchain([rest] + list(ch[0].args[1]))
    return mk('vsum', c)


def vsum(t):
    """Sum over all elements."""

    def f(x):
        r = rank(x)
        if r == 0:
            return x
        if x.op == 'zeros':
            return ZERO
        if x.op == 'ew':
            return mk('vsum', x)
        out = []
        for m, k in lin_items(x):
            s, c = split_scalar(m)
            if c is ONE:
                p = mk('rsum', m)
            elif c.op == 'prod' and len(c.args[0]) == 1 \
                    and c.args[0][0][1] == 2 and rank(c.args[0][0][0]) == 1:
                p = mul(powr(norm_(c.args[0][0][0]), 2), s)
            else:
                p = mul(s, _sum_prod(c))
            out.append(scale(p, k))
        if not out:
            return ZERO
        r = out[0]
        for o in out[1:]:
            r = add(r, o)
        return r

    return lift(f, t) or f(t)


def common_scalar(its):
    """(k, y) such that the sum is k * y with the scalar factors that all
    of its monomials share."""
    ks = None
    for m, c in its:
        fs = {b: e for b, e in mono_items(m) if rank(b) == 0}
        ks = fs if ks is None else {b: e for b, e in ks.items()
                                    if fs.get(b) == e}
    if not ks:
        return ONE, None
    out = {}
    for m, c in its:
        r = _build_prod({b: e for b, e in mono_items(m) if b not in ks})
        out[r] = out.get(r, 0) + c
    return _build_prod(ks), from_lin(out)


def norm_(t):
    """Euclidean (or Frobenius) norm."""

    def f(x):
        if rank(x) == 0:
            return abs_(x)
        if x.op == 'zeros':
            return ZERO
        its = lin_items(x)
        if len(its) == 1:
            m, k = its[0]
            s, c = split_scalar(m)
            if c is ONE:
                return mk('norm', x)
            return scale(mul(abs_(s), mk('norm', c)), abs(k))
        if x.op == 'lin' and rank(x) == 1:
            k, y = common_scalar(its)
            if k is not ONE:
                return mul(abs_(k), f(y))
            return powr(dot(x, x), Fraction(1, 2))
        if x.op == 'lin':
            if its[0][1] < 0:
                x = from_lin({m: -c for m, c in its})
        return mk('norm', x)

    return lift(f, t) or f(t)


def diag(t):
    def f(x):
        if rank(x) == 2:
            if x.op == 'diag':
                return x.args[0]
            return mk('diagonal', x)
        return mk('diag', x)

    if t.op == 'csc':
        return diag(t.args[0])
    return lift(f, t) or f(t)


# --------------------------------------------------------------------------
# comparisons
def _cmp(op, a, b):
    """a <op> b as B with op in lt, le, eq."""
    e = sub(a, b)
    return cmp0(op, e)


def cmp0(op, e):
    if e.op == 'cases':
        r = FALSE
        for g, l in e.args[0]:
            r = r | (g & cmp0(op, l))
        return r
    if e.op == 'ew':
        r = FALSE
        for g, l in e.args[0]:
            r = r | (g & cmp0(op, l))
        return r
    if e.op == 'gather':
        return atom(mk('gb', op, e))
    v = numval(e)
    if e.op == 'zeros':
        v = Fraction(0)
    if v is not None:
        return TRUE if {'lt0': v < 0, 'le0': v <= 0, 'eq0': v == 0}[op] \
            else FALSE
    if e is NAN:
        return FALSE
    its = lin_items(e)
    infs = [k for m, k in its if m is INF]
    if infs and len(its) == 1:
        return TRUE if infs[0] < 0 and op in ('lt0', 'le0') else FALSE
    if len(its) == 1 and its[0][0].op == 'ones':
        return cmp0(op, num(its[0][1]))
    # positive scaling
    k = abs(([c for m, c in its if m is not ONE] or [its[0][1]])[0])
    if k != 1:
        e = from_lin({m: c / k for m, c in its})
        its = lin_items(e)
    # positive common factors of a single monomial
    if len(its) == 1:
        m, c = its[0]
        facs = mono_items(m)
        rest = [(b, x) for b, x in facs if not (
            sign_pos(b) or (op == 'lt0' and False))]
        if len(rest) < len(facs) and rest:
            p = _build_prod(dict(rest))
            return cmp0(op, scale(p, c))
    if op == 'eq0':
        if its[0][1] < 0:
            e = from_lin({m: -c for m, c in its})
        if len(lin_items(e)) == 1 and e.op in ('norm', 'abs'):
            pass
        return atom(mk('eq0', e))
    ab = [(m, c) for m, c in its if m.op == 'abs']
    if len(ab) == 1 and op in ('lt0', 'le0') and len(its) > 1:
        # |e| < c  <=>  e < c and -e < c
        m, c = ab[0]
        rest = from_lin({x: k for x, k in its if x is not m})
        p = cmp0(op, add(scale(m.args[0], c), rest))
        q = cmp0(op, add(scale(m.args[0], -c), rest))
        return p & q if c > 0 else p | q
    # reductions
    red = [(m, c) for m, c in its if m.op in ('rmin', 'rmax')]
    if len(red) == 1 and all(
        rank(m) == 0 for m, c in its
    ):
        m, c = red[0]
        rest = from_lin({x: k for x, k in its if x is not m})
        arr = m.args[0]
        inner = cmp0(op, add(scale(arr, c), rest))
        ismin = m.op == 'rmin'
        if ismin == (c > 0):
            return any_(inner)
        return ~any_(~inner)
    if len(its) > 1 and op != 'eq0':
        mm = [(m, c) for m, c in its if m.op in ('min', 'max')
              and any(x.op in ('rmin', 'rmax') for x in m.args[0])]
        if len(mm) == 1:
            # min(a, b) < c  <=>  a < c or b < c
            m, c = mm[0]
            rest = from_lin({x: k for x, k in its if x is not m})
            ps = [cmp0(op, add(scale(x, c), rest)) for x in m.args[0]]
            return disj(*ps) if (m.op == 'min') == (c > 0) else conj(*ps)
    return atom(mk(op, e))


def lt(a, b):
    return _cmp('lt0', a, b)


def le(a, b):
    return _cmp('le0', a, b)


def _some_inf(t):
    if t.op in ('cases', 'ew'):
        return any(_some_inf(l) for _, l in t.args[0])
    return unit(t) is INF


def eqn(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op in ('cases', 'ew') and _some_inf(x):
            return disj(*[g & eqn(l, y) for g, l in x.args[0]])
    if unit(a) is INF and unit(b) is INF:
        return TRUE
    a, b = unit(a), unit(b)
    return _cmp('eq0', a, b)


def isfinite(t):
    def f(x):
        if x.op in ('num', 'zeros', 'ones', 'eye'):
            return TRUET
        if x in (INF, NAN) or x.op == 'lin' and len(x.args[0]) == 1 and \
                x.args[0][0][0] in (INF, NAN):
            return FALSET
        if x.op == 'prod':
            # inf * ones
            if any(b is INF for b, _ in x.args[0]) and all(
                    b.op in ('inf', 'ones') for b, _ in x.args[0]):
                return FALSET
        if x.op == 'tofloat':
            x = x.args[0]
        its = lin_items(x)
        if len(its) == 1 and its[0][1] < 0:
            x = its[0][0]
        return bt(atom(mk('isfinite', x)))

    r = lift_ew(f, t)
    return tob(r)


def isnan(t):
    def f(x):
        if x.op == 'num':
            return FALSET
        if x is NAN:
            return TRUET
        its = lin_items(x)
        if its and its[0][1] < 0:
            x = neg(x)
        return bt(atom(mk('isnan', x)))

    return tob(lift_ew(f, t))


def tob(t):
    """boolean term -> B"""
    if t.op == 'b':
        return t.args[0]
    if t.op in ('cases', 'ew'):
        r = FALSE
        for g, l in t.args[0]:
            r = r | (g & tob(l))
        return r
    v = numval(t)
    if v is not None:
        return TRUE if v else FALSE
    if t.op in ('lin', 'prod', 'norm', 'vsum', 'len', 'abs', 'min', 'max'):
        return ~eqn(t, ZERO)
    return atom(mk('truth', t))


def _primes(b):
    """Prime implicants of a small BDD, as list of cubes."""
    vs = sorted(support(b))

    def go(b):
        if b is FALSE:
            return frozenset()
        if b is TRUE:
            return frozenset([frozenset()])
        v = b.v
        both = go(b.lo & b.hi)
        p1 = frozenset(
            c | {(v, True)} for c in go(b.hi) if not any(
                q <= c for q in both))
        p0 = frozenset(
            c | {(v, False)} for c in go(b.lo) if not any(
                q <= c for q in both))
        return both | p1 | p0

    return [] if not vs else go(b)


def any_(b):
    """np.any of an elementwise boolean."""
    if b is TRUE or b is FALSE:
        return b
    sc = [v for v in support(b) if rank(_atoms[v]) == 0]
    if sc:
        v = min(sc)
        return ite(_bmk(v, FALSE, TRUE), any_(restrict(b, v, True)),
                   any_(restrict(b, v, False)))
    if len(support(b)) > 6:
        return atom(mk('any', b))
    r = FALSE
    for c in sorted(_primes(b), key=sorted):
        cb = TRUE
        for v, val in c:
            a = _bmk(v, FALSE, TRUE)
            cb = cb & (a if val else ~a)
        if sat(cb):
            r = r | atom(mk('any', cb))
    return r


def all_(b):
    return ~any_(~b)


# --------------------------------------------------------------------------
# indexing
def norm_key(k):
    if k.op == 'idx':
        return bt(k.args[0])
    if k.op == 'tuple' and len(k.args[0]) == 1:
        return norm_key(k.args[0][0])
    if k.op not in ('b', 'slice', 'tuple', 'num', 'const', 'cases', 'ew') \
            and rank(k) == 1:
        # positions listed in an index array
        return bt(atom(mk('member', k)))
    return k


def gather(x, k):
    k = norm_key(k)

    def f(x):
        if rank(x) == 0:
            return x
        if k.op == 'b' and x.op == 'ew':
            b = k.args[0]
            its = [(constrain(g, b), l) for g, l in x.args[0] if sat(g & b)]
            if len(its) == 1:
                return f(its[0][1])
        return mk('gather', x, k)

    return lift(f, x) or f(x)


def scatter(x, k, v):
    """array x with x[k] = v"""
    k = norm_key(k)

    def f(x, v):
        if k.op == 'b':
            b = k.args[0]
            if v.op == 'gather' and v.args[1] is k:
                return ew(b, v.args[0], x)
            if rank(v) == 0:
                return ew(b, v, x)
        return mk('setitem', x, k, v)

    return lift(f, x, v) or f(x, v)


def boolarr(t):
    """Conditional array of booleans as one elementwise condition."""
    if t.op == 'cases':
        return mkcases([(g, boolarr(l)) for g, l in t.args[0]])
    if t.op != 'ew' or not any(l.op == 'b' for _, l in t.args[0]) or any(
            l.op not in ('b', 'zeros', 'ones') for _, l in t.args[0]):
        return t
    return bt(disj(*[m & (l.args[0] if l.op == 'b' else
                          TRUE if l.op == 'ones' else FALSE)
                     for m, l in t.args[0]]))


# --------------------------------------------------------------------------
# generic traversal
def subterms(t, seen=None):
    """All subterms (guards included) of a term."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, B):
            if x in seen:
                continue
            seen.add(x)
            for v in support(x):
                stack.append(_atoms[v])
        elif isinstance(x, tuple):
            stack.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, f, memo=None, atomf=None):
    """Rebuild t with f(leaf) applied to every sym/mu/opaque subterm; f
    returns a replacement or None."""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        r = f(t)
        if r is None:
            r = rebuild(t)
        memo[t] = r
        return r

    def gob(b):
        return bmap(b, goatom)

    def goatom(a):
        if atomf is not None:
            r = atomf(a, go)
            if r is not None:
                return r
        if a.op in ('lt0', 'le0', 'eq0'):
            return cmp0(a.op, go(a.args[0]))
        if a.op == 'any':
            return any_(gob(a.args[0]))
        if a.op == 'isfinite':
            return isfinite(go(a.args[0]))
        if a.op == 'truth':
            return tob(go(a.args[0]))
        r = f(a)
        if r is not None:
            return tob(r)
        return atom(rebuild(a))

    def gox(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, B):
            return gob(x)
        if isinstance(x, tuple):
            return tuple(gox(y) for y in x)
        return x

    def rebuild(t):
        op, a = t.op, t.args
        if op == 'lin':
            r = ZERO
            for i, (m, k) in enumerate(a[0]):
                y = scale(go(m), k)
                r = y if i == 0 else add(r, y)
            return r
        if op == 'prod':
            r = None
            for b, e in a[0]:
                y = powr(go(b), e)
                r = y if r is None else mul(r, y)
            return r
        if op == 'cases':
            return mkcases([(gob(g), go(l)) for g, l in a[0]])
        if op == 'ew':
            r = [(gob(g), go(l)) for g, l in a[0]]
            out = r[-1][1]
            for g, l in reversed(r[:-1]):
                out = ew(g, l, out)
            return out
        if op == 'b':
            return bt(gob(a[0]))
        if op == 'chain':
            fs = [go(x) for x in a[1]]
            r = fs[0]
            if rank(fs[0]) == 1 or True:
                # right to left keeps vectors at the end
                r = fs[-1]
                for x in reversed(fs[:-1]):
                    r = dot(x, r)
            return r
        if op == 'vsum':
            return vsum(go(a[0]))
        if op == 'norm':
            return norm_(go(a[0]))
        if op == 'outer':
            return outer(go(a[0]), go(a[1]))
        if op == 'diag':
            return diag(go(a[0]))
        if op == 'T':
            return transpose(go(a[0]))
        if op == 'abs':
            return abs_(go(a[0]))
        if op in ('min', 'max'):
            return minmax(op, *[go(x) for x in a[0]])
        if op in ('rmin', 'rmax'):
            return reduce_minmax(op, go(a[0]))
        if op == 'gather':
            return gather(go(a[0]), go(a[1]))
        if op == 'setitem':
            return scatter(go(a[0]), go(a[1]), go(a[2]))
        if op == 'csc':
            return mk('csc', go(a[0]))
        if not a:
            return t
        return mk(op, *[gox(x) for x in a])

    return go(t)


def inverse_sums(t):
    """Sums that some part of t divides by."""
    out = []
    for x in subterms(t):
        if x.op == 'prod':
            for b, e in x.args[0]:
                if e < 0 and b.op == 'lin' and b not in out:
                    out.append(b)
    return sorted(out, key=lambda b: len(lin_items(b)))


def rational_form(t):
    """
    Normal form of rational expressions: every sum that is divided by is
    made an indeterminate of its own, by solving it for one of the
    quantities it is linear in.
    """
    for n in range(12):
        subs = None
        for L in inverse_sums(t):
            items = lin_items(L)
            for m, k in items:
                fs = mono_items(m)
                for a, e in fs:
                    if e != 1 or a.op in ('num', 'lin') or rank(a):
                        continue
                    if any(x is not m and contains(x, lambda y: y is a)
                           for x, _ in items) or any(
                               b is not a and contains(b, lambda y: y is a)
                               for b, _ in fs):
                        continue
                    rest = sub(L, scale(m, k))
                    co = scale(powr(a, -1), k)
                    co = mul(co, m)
                    D = sym('den%d' % L.id, rank=0, notnone=True)
                    subs = (a, mul(sub(D, rest), powr(co, -1)), L, D)
                    break
                if subs:
                    break
            if subs:
                break
        if not subs:
            return t
        a, v, L, D = subs
        t2 = subst(t, lambda x: D if x is L else v if x is a else None)
        if t2 is t:
            return t
        t = t2
    return t


def rational_equal(x, y):
    if rank(x) != rank(y) or rank(x) is None:
        return False
    if x.op in ('cases', 'ew', 'b', 'ref', 'tuple') or y.op in (
            'cases', 'ew', 'b', 'ref', 'tuple'):
        return False
    d = sub(x, y)
    if not inverse_sums(d):
        return False
    d = rational_form(d)
    return d is ZERO or d.op == 'zeros'


def nanfree_form(t, memo=None):
    """Same value if nothing is NaN: comparisons in a unique form."""

    def atomf(a, go):
        if a.op not in ('lt0', 'le0', 'eq0'):
            if a.op == 'isnan':
                return FALSE
            return None
        e = go(a.args[0])
        if e.op in ('cases', 'ew', 'gather'):
            return cmp0(a.op, e)
        its = lin_items(e)
        if len(its) == 1 and numval(e) is None:
            m, k = its[0]
            if sign_nonneg(m):
                z = m.args[0] if m.op == 'abs' else m
                if m.op == 'prod':
                    z = _build_prod({(b.args[0] if b.op == 'abs' else b): x
                                     for b, x in m.args[0]})
                if a.op == 'lt0':
                    return ~cmp0('eq0', z) if k < 0 else FALSE
                if a.op == 'le0':
                    return cmp0('eq0', z) if k > 0 else TRUE
        if a.op == 'le0':
            r = cmp0('lt0', neg(e))
            return ~r
        return cmp0(a.op, e)

    return subst(t, lambda x: None, memo, atomf)


def subst_b(b, f):
    r = subst(bt(b), f)
    return tob(r)


# --------------------------------------------------------------------------
# printing
def _fr(k):
    if k.denominator == 1:
        return str(k.numerator)
    f = float(k)
    return f'{f:g}'


def show(t, depth=7):
    if depth <= 0:
        return '…'
    d = depth - 1
    if isinstance(t, B):
        return showb(t, d)
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    op, a = t.op, t.args
    if op == 'num':
        return _fr(a[0])
    if op == 'const':
        return repr(a[0])
    if op in ('sym', 'enum'):
        return str(a[0])
    if op == 'mu':
        return f'{a[1]}′'
    if op == 'ref':
        return f'<{a[0]}>'
    if op == 'lin':
        out = ''
        for m, k in a[0]:
            s = '-' if k < 0 else ('+' if out else '')
            k = abs(k)
            if m is ONE:
                x = _fr(k)
            elif k == 1:
                x = show(m, d)
            else:
                x = f'{_fr(k)}*{show(m, d)}'
            out += f' {s} {x}' if out else f'{s}{x}'
        return f'({out})'
    if op == 'prod':
        return '*'.join(
            show(b, d) + (f'^{_fr(e)}' if e != 1 else '') for b, e in a[0])
    if op == 'cases':
        return '{' + '; '.join(
            f'{show(l, d)} if {showb(g, d)}' for g, l in a[0]) + '}'
    if op == 'ew':
        return 'where[' + '; '.join(
            f'{show(l, d)} if {showb(g, d)}' for g, l in a[0]) + ']'
    if op == 'b':
        return showb(a[0], d)
    if op == 'chain':
        return '@'.join(show(x, d) for x in a[1])
    if op == 'lt0':
        return f'{show(a[0], d)} < 0'
    if op == 'le0':
        return f'{show(a[0], d)} <= 0'
    if op == 'eq0':
        return f'{show(a[0], d)} == 0'
    if op in ('min', 'max'):
        return f'{op}(' + ', '.join(show(x, d) for x in a[0]) + ')'
    if op == 'dictget':
        return f'opt[{show(a[1], d)}]' if a[0].op == 'sym' else \
            f'{show(a[0], d)}.get({show(a[1], d)}, {show(a[2], d)})'
    return f'{op}(' + ', '.join(show(x, d) for x in a) + ')'


def showb(b, depth=7):
    if b is TRUE:
        return 'true'
    if b is FALSE:
        return 'false'
    cs = []
    for i, c in enumerate(cubes(b)):
        if i == 4:
            cs.append('…')
            break
        cs.append(' & '.join(
            ('' if val else '!') + '[' + show(_atoms[v], depth - 1) + ']'
            for v, val in c.items()) or 'true')
    return ' | '.join(cs)
