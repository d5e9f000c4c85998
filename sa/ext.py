"""Models of the library functions that the analysed package may call.

A model says what a call computes (as a canonical term), what it writes and
whether its result aliases an argument.  A function that has no model yields an
opaque value that depends on all its arguments, which is sound for the value
graph; array arguments stay unchanged, except for functions in ``MUTATORS``.
"""

from fractions import Fraction
from math import prod as _prod

from .terms import *  # noqa: F401,F403
from .terms import T, B, mk, _maxrank

EPS = num(Fraction(1, 2 ** 52))


def _uitem_rank(*a):
    v = numval(a[-1])
    return None if v is None or v < 0 else int(v)


EXTRANK.update({
    'uitem': _uitem_rank,
    'vstack': 2, 'array': 1, 'range': None, 'eigvals': 1, 'eigvecs': 2,
    'cond': 0, 'det': 0, 'inv': 2, 'lstsq': lambda a, b, *r: rank(b),
    'solve': lambda a, b, *r: rank(b), 'pow': None, 'anyaxis': 1,
    'redaxis': 1, 'ndim': 0, 'size': 0, 'impure': 0, 'recvattr': None,
    'arange': 1, 'cholesky': 2, 'pinv': 2, 'qr': 2, 'norminf': 0,
    'array2': 2, 'concat': 1, 'isscalar': 0, 'random': 0, 'root': 0,
    'item': 0, 'copysign': lambda *a: _maxrank(a), 'normord': 0,
    'sorted': 1, 'trace': 0, 'det2': 0, 'mask2': 2,
    'scipy.optimize.newton': 0, 'scipy.optimize.brentq': 0,
})


# -------------------------------------------------------------- attributes
CONSTS = {
    'numpy.inf': INF, 'math.inf': INF, 'numpy.Inf': INF, 'numpy.infty': INF,
    'numpy.nan': NAN, 'math.nan': NAN, 'numpy.NaN': NAN,
    'numpy.newaxis': NONE, 'numpy.pi': num(3.141592653589793),
    'math.pi': num(3.141592653589793),
    'logging.DEBUG': num(10), 'logging.INFO': num(20),
    'logging.WARNING': num(30), 'logging.ERROR': num(40),
    'sys.float_info.epsilon': EPS,
}


def ext_attr(eng, dotted):
    if dotted in CONSTS:
        return CONSTS[dotted]
    return mk('ext', dotted)


VIEW_SAME = ('real', 'flat', 'A1')


def arr_attr(eng, v, name, st, node):
    c = eng.content(v, st)
    if name == 'T':
        if rank(c) == 1:
            return v
        return eng.alloc(st, 'view', f={'base': v}, label='view',
                         meta={'vk': 'T'})
    if name == 'real':
        return v
    if name == 'shape':
        return shape_of(c)
    if name == 'size':
        return size_of(c)
    if name == 'ndim':
        return ndim_of(c)
    if name in ('A', 'data', 'values'):
        return v
    if name in ('dtype', 'flags', 'nbytes', 'itemsize', 'nnz', 'format'):
        return mk('call', 'recvattr', const(name), c)
    return mk('bm', v, mk('ext', 'arr.' + name))


def shape_of(c):
    def f(x):
        # the shape of an elementwise term is the one of its operands
        sh = known_shape(x)
        if sh is not None:
            return mk('tuple', tuple(num(i) for i in sh))
        return mk('shape', dimbase(x))

    return lift(f, c)


def size_of(c):
    def f(x):
        sh = known_shape(x)
        if sh is not None:
            return num(_prod(sh))
        if rank(x) == 1:
            return mk('len', dimbase(x))
        return mk('call', 'size', x)

    return lift(f, c)


def ndim_of(c):
    sh = known_shape(c)
    return mk('call', 'ndim', c) if sh is None else num(len(sh))


def len_of(c):
    def f(x):
        sh = known_shape(x)
        return num(sh[0]) if sh else mk('len', dimbase(x))

    return lift(f, c)


def known_shape(x):
    """Shape that an analysis assumes of a symbol."""
    if x.op in ('lin', 'prod', 'ew', 'csc'):
        x = dimbase(x)
    if x.op == 'T':
        sh = known_shape(x.args[0])
        return None if sh is None else sh[::-1]
    return SYMINFO.get(x.args[0], {}).get('shape') if x.op == 'sym' else None


def dimbase(x):
    """Representative of all arrays that have the same shape by
    construction."""
    seen = 0
    while seen < 40:
        seen += 1
        if x.op == 'csc':
            x = x.args[0]
            continue
        if x.op == 'ew':
            for _, l in x.args[0]:
                if rank(l) == rank(x):
                    x = l
                    break
            else:
                return x
            continue
        if x.op in ('lin', 'prod'):
            r = rank(x)
            bs = [m for m, _ in x.args[0] if rank(m) == r]
            if not bs:
                return x
            x = min(bs, key=lambda t: t.id)
            continue
        if x.op in ('abs', 'tofloat', 'sign', 'T') and (
                x.op != 'T' or False):
            x = x.args[0]
            continue
        if x.op == 'chain' and x.args[0] == 1 and x.args[1][0].op == 'diag':
            x = x.args[1][0].args[0]
            continue
        break
    if x.op == 'sym':
        d = SYMINFO.get(x.args[0], {}).get('dim')
        if d is not None:
            return mk('sym', d)
    return x


def val_attr(eng, v, name, st, node):
    """Attribute of a value without a heap object."""
    if v.op in ('sym', 'mu', 'call', 'iter', 'getitem', 'dictget', 'dictitem',
                'num', 'lin', 'prod', 'uret', 'attr', 'listitem', 'oneof',
                'pick', 'chain', 'norm', 'vsum', 'min', 'max', 'rmin',
                'rmax', 'shape', 'b', 'len', 'abs', 'ewfun', 'inf', 'nan',
                'zeros', 'ones', 'gather', 'ew', 'csc', 'idx', 'wheretuple',
                'exc', 'range'):
        c = v
        r = rank(v)
        if r and name in ('T',):
            return transpose(v)
        if name == 'T' and r == 0:
            return v
        if name == 'real' and r is not None:
            return v
        if name == 'shape':
            return shape_of(c)
        if name == 'ndim':
            return ndim_of(c)
        if name == 'size' and (r == 1 or known_shape(c) is not None):
            return size_of(c)
        if v.op == 'call' and v.args[0] == 'finfo' and name == 'eps':
            return EPS
        if v.op == 'call' and name == 'x' and str(v.args[0]).startswith(
                'scipy.optimize.'):
            t = mk('call', 'optimizer.x', v)
            EXTRANK['optimizer.x'] = 1
            return eng.alloc(st, 'arr', f={'c': t}, label='x')
        return mk('bmx', v, const(name))
    if v.op == 'ref':
        return mk('bmx', v, const(name))
    if v is NONE:
        eng.do_raise(st, node, 'AttributeError', const(name), implicit=True)
        return mk('undef')
    if v.op == 'tuple':
        return mk('bm', v, mk('ext', 'tuple.' + name))
    return mk('bmx', v, const(name))


# ----------------------------------------------------------- value functions
def _first(a, kw, i, name, default=None):
    if len(a) > i:
        return a[i]
    return kw.get(name, default)


def listed(eng, st, c):
    """Table of the tuples a list with conditional items may be."""
    if c.op != 'segs' or any(x.op in ('splat', 'splatvar', 'mulist')
                             for _, x in c.args[0]):
        return c
    if sum(g is not TRUE for g, _ in c.args[0]) > 3:
        return c
    out = [(TRUE, ())]
    for g, x in c.args[0]:
        x = eng.content(x, st)
        nxt = []
        for h, t in out:
            if sat(h & g):
                nxt.append((h & g, t + (x,)))
            if sat(h & ~g):
                nxt.append((h & ~g, t))
        out = nxt
    return mkcases([(h, tup(*t)) for h, t in out])


def _stack_rows(eng, c):
    its = list(c.args[0]) if c.op == 'tuple' else None
    if its is None:
        return mk('call', 'vstack', c)
    return mk('call', 'vstack', *its)


def _arr_of(c):
    """np.array of a sequence content."""
    if c.op == 'tuple':
        its = c.args[0]
        if not its:
            return mk('empty', 1)
        rs = {rank(x) for x in its}
        if rs == {1}:
            return mk('call', 'vstack', *its)
        if rs == {0}:
            if all(x is ONE for x in its):
                return mk('ones', 1)
            if all(x is ZERO for x in its):
                return mk('zeros', 1)
            return mk('call', 'array', *its)
        if all(x.op == 'tuple' for x in its):
            if all(y is ONE for x in its for y in x.args[0]):
                return mk('ones', 2)
            return mk('call', 'array2', *[tup(*x.args[0]) for x in its])
        return mk('call', 'array', *its)
    return c


def _rows(c):
    """Rows of a stacked array or None."""
    if c.op == 'call' and c.args[0] == 'vstack':
        return list(c.args[1:])
    if c.op == 'tuple':
        return list(c.args[0])
    return None


def _cols(c):
    if c.op == 'T':
        return _rows(c.args[0])
    return None


def reduce_(eng, op, c, axis, st, node, nan=False):
    """min/max/sum/any/all with optional axis."""
    c = strip_csc(c)
    if c.op == 'tuple' and not all(rank(x) == 0 for x in c.args[0]):
        c2 = _arr_of(c)
    else:
        c2 = c
    ax = None if axis is None or axis is NONE else numval(axis)
    if ax is not None and not (ax in (0, -1) and rank(c2) == 1):
        rows = None
        if ax == 0:
            rows = _rows(c2)
        elif ax == 1 or ax == -1:
            rows = _cols(c2)
        if rows is not None:
            if op in ('min', 'max'):
                return minmax(op, *rows)
            if op == 'sum':
                return add(*rows)
            if op in ('any', 'all'):
                bs = [tob(r) for r in rows]
                return bt(disj(*bs) if op == 'any' else conj(*bs))
        if op in ('any', 'all'):
            if c2.op == 'b':
                return bt(atom(mk('call', 'anyaxis', const(op), c2,
                                  axis)))
        return mk('call', 'redaxis', const(op), c2, axis)
    if c.op == 'tuple':
        its = c.args[0]
        if op in ('min', 'max'):
            return minmax(op, *its) if its else mk('undef')
        if op == 'sum':
            return add(ZERO, *its) if len(its) != 1 else its[0]
        bs = [tob(x) for x in its]
        return bt(disj(*bs) if op == 'any' else conj(*bs))
    if c.op == 'segs' or rank(c) is None and op in ('min', 'max') and \
            c.op in ('iter', 'segs'):
        return mk('call', 'reduce', const(op), c)
    if op in ('min', 'max'):
        return reduce_minmax('r' + op, c)
    if op == 'sum':
        return vsum(c)
    b = tob_ew(c)
    return bt(any_(b) if op == 'any' else all_(b))


def tob_ew(c):
    if c.op == 'b':
        return c.args[0]
    if c.op in ('cases', 'ew') and all(
            l.op == 'b' or numval(l) is not None for _, l in c.args[0]):
        return tob(c)
    # truth of numbers: x != 0
    return ~eqn(c, ZERO)


def where3(b, x, y):
    if b.op in ('cases',):
        return lift(lambda q: where3(q, x, y), b)
    g = tob_ew(b)
    if rank(bt(g)):
        return ew(g, x, y)
    return phi(g, x, y)


def norm_fn(c, order=None, axis=None):
    c = strip_csc(c)
    if axis is not None and axis is not NONE:
        return mk('call', 'redaxis', const('norm'), c, axis)
    if c.op == 'tuple':
        c = _arr_of(c)
        if c.op == 'call' and c.args[0] == 'array':
            return sqrt_(add(ZERO, *[powr(x, 2) for x in c.args[1:]]))
    if order is None or order is NONE:
        return norm_(c)
    if numval(order) == 2 and rank(c) == 1:
        return norm_(c)
    if order is INF and rank(c) == 1:
        return reduce_minmax('rmax', abs_(c))
    if numval(order) == 1 and rank(c) == 1:
        return vsum(abs_(c))
    if order.op == 'const' and order.args[0] == 'fro':
        return norm_(c)
    return mk('call', 'normord', c, order)


def expand(c, axis):
    ax = numval(axis) if axis is not None else None
    if rank(c) == 1 and ax in (1, -1):
        return mk('col', c)
    if rank(c) == 1 and ax == 0:
        return mk('T', mk('col', c))
    if rank(c) == 0:
        return mul(c, mk('ones', 1))
    return mk('call', 'expand_dims', c, axis or NONE)


_oldrank = None


def shape_rank(c):
    """Rank of an array created with this shape."""
    if c.op == 'shape':
        return rank(c.args[0])
    if c.op == 'tuple':
        return len(c.args[0])
    if c.op == 'cases':
        rs = {shape_rank(l) for _, l in c.args[0]}
        return rs.pop() if len(rs) == 1 else None
    if rank(c) == 0 or c.op in ('len', 'num'):
        return 1
    return None


def argred(op, c, st, eng, axis=None):
    if c.op == 'tuple':
        return mk('arg' + op, c)
    return mk('arg' + op, c)


def bool2(f):
    return lambda a, b: bt(f(tob_ew(a), tob_ew(b)))


def isclose_(name, *a):
    return bt(atom(mk('call', name, *a)))


# name -> (function of contents); results are wrapped
PURE = {
    'add': lambda a, b: add(a, b),
    'subtract': lambda a, b: sub(a, b),
    'multiply': lambda a, b: mul(strip_csc(a), strip_csc(b)),
    'divide': lambda a, b: div(a, b),
    'true_divide': lambda a, b: div(a, b),
    'negative': lambda a: neg(a),
    'positive': lambda a: a,
    'reciprocal': lambda a: powr(a, -1),
    'sqrt': lambda a: sqrt_(a),
    'square': lambda a: powr(a, 2),
    'abs': lambda a: abs_(a), 'absolute': lambda a: abs_(a),
    'fabs': lambda a: abs_(a),
    'sign': lambda a: sign_(a),
    'dot': lambda a, b: dot(a, b), 'matmul': lambda a, b: dot(a, b),
    'inner': lambda a, b: dot(a, b) if rank(a) == 1 else mk(
        'call', 'inner', a, b),
    'vdot': lambda a, b: dot(a, b) if rank(a) == 1 else vsum(mul(a, b)),
    'outer': lambda a, b: outer(a, b),
    'transpose': lambda a: transpose(a),
    'real': lambda a: a, 'conj': lambda a: a, 'conjugate': lambda a: a,
    'real_if_close': lambda a: a, 'ascontiguousarray': lambda a: a,
    'isfinite': lambda a: bt(isfinite(a)),
    'isnan': lambda a: bt(isnan(a)),
    'isinf': lambda a: bt(~isfinite(a) & ~isnan(a)),
    'logical_not': lambda a: bt(~tob_ew(a)),
    'invert': lambda a: bt(~tob_ew(a)),
    'logical_and': bool2(lambda a, b: a & b),
    'logical_or': bool2(lambda a, b: a | b),
    'logical_xor': bool2(lambda a, b: (a & ~b) | (~a & b)),
    'less': lambda a, b: bt(lt(a, b)),
    'less_equal': lambda a, b: bt(le(a, b)),
    'greater': lambda a, b: bt(lt(b, a)),
    'greater_equal': lambda a, b: bt(le(b, a)),
    'equal': lambda a, b: bt(eqn(a, b)),
    'not_equal': lambda a, b: bt(~eqn(a, b)),
    'count_nonzero': lambda a: mk('call', 'size', a),
    'diag': lambda a: diag(strip_csc(a)),
    'diagflat': lambda a: diag(strip_csc(a)),
    'diagonal': lambda a: diag(strip_csc(a)),
    'copysign': lambda a, b: mk('call', 'copysign', abs_(a), b),
    'hypot': lambda a, b: sqrt_(add(powr(a, 2), powr(b, 2))),
    'float64': lambda a: a, 'float32': lambda a: mk('tofloat', a),
    'squeeze': lambda a: mk('call', 'squeeze', a) if rank(a) != 1 else a,
    'atleast_1d': lambda a: a if rank(a) else mul(a, mk('ones', 1)),
    'atleast_2d': lambda a: a if rank(a) == 2 else mk('call', 'atleast_2d',
                                                       a),
    'trace': lambda a: mk('call', 'trace', a),
    'array_equal': lambda a, b: array_equal(a, b),
    'spacing': lambda a: EPS if a is ONE else ewfun('spacing', a),
}


def array_equal(a, b):
    if rank(a) is not None and rank(a) == rank(b):
        return bt(~any_(~eqn(a, b)))
    return bt(atom(mk('call', 'array_equal', *sorted(
        (a, b), key=lambda t: t.id))))


EXTRANK.update({
    'expand_dims': lambda a, *r: None if rank(a) is None else rank(a) + 1,
    'squeeze': None, 'atleast_2d': 2, 'inner': None, 'reduce': 0,
    'isclose': lambda *a: _maxrank(a), 'allclose': 0, 'array_equal': 0,
    'float32': lambda a: rank(a), 'spacing': lambda a: rank(a),
})

# numpy / math / scipy names with several spellings
ALIAS = {
    'amin': 'min', 'amax': 'max', 'fmin': 'minimum', 'fmax': 'maximum',
    'nanmin': 'min', 'nanmax': 'max', 'nansum': 'sum',
    'array_equiv': 'array_equal', 'asanyarray': 'asarray',
    'asfarray': 'asarray', 'pow': 'power', 'row_stack': 'vstack',
    'identity': 'eye', 'bitwise_and': 'logical_and',
    'bitwise_or': 'logical_or', 'bitwise_not': 'logical_not',
    'concatenate': 'concat',
}

MUTATORS = ('fill_diagonal', 'copyto', 'put', 'place', 'putmask',
            'put_along_axis', 'shuffle')

NUMERIC_MODS = ('numpy', 'math', 'numpy.linalg', 'scipy.linalg', 'operator',
                'numpy.core', 'cmath')

OPERATOR = {
    'mul': 'multiply', 'sub': 'subtract', 'add': 'add',
    'truediv': 'divide', 'neg': 'negative', 'matmul': 'matmul',
    'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal',
    'eq': 'equal', 'ne': 'not_equal', 'and_': 'logical_and',
    'or_': 'logical_or', 'not_': 'logical_not', 'abs': 'abs',
}


def fresh(eng, st, c, label='arr'):
    """A newly allocated array (or scalar) with content c."""
    return eng.wrap(st, c, label)


def opaque_result(eng, name, cs, st, node):
    return fresh(eng, st, mk('call', name, *cs))


def callkey(eng, node):
    ctx = eng.callstack[-1].ctx if eng.callstack else ()
    return (ctx, tuple(eng.loopstack), getattr(node, 'lineno', 0),
            getattr(node, 'col_offset', 0))


def impure(eng, name, args, st, node, isevent=True):
    if isevent:
        t = mk('impure', name, callkey(eng, node))
        eng.event('impure', st, node, name=name, args=args, result=t)
    return mk('impure', name, callkey(eng, node))


def call_ext(eng, name, args, kwargs, st, node):
    h = eng.exthooks.get(name)
    if h is not None:
        r = h(eng, st, args, kwargs, node)
        if r is not None:
            return r
    mod, _, fn = name.rpartition('.')
    args = [simplify(a, st.pc) if a.op == 'cases' else a for a in args]
    root = name.split('.')[0]
    if mod == 'builtins' or mod == 'object':
        return call_builtin(eng, fn, args, kwargs, st, node, name)
    if mod == 'operator' and fn in OPERATOR:
        fn = OPERATOR[fn]
        mod = 'numpy'
    if mod in NUMERIC_MODS or mod.startswith('numpy'):
        r = call_numpy(eng, mod, fn, args, kwargs, st, node)
        if r is not None:
            return r
    if root == 'copy':
        return do_copy(eng, fn, args[0], st, node)
    if root == 'scipy' and ('sparse' in mod):
        if fn in ('csc_matrix', 'csr_matrix', 'coo_matrix', 'csc_array',
                  'csr_array', 'issparse', 'isspmatrix'):
            if fn.startswith('is'):
                return bt(TRUE if eng.content(args[0], st).op == 'csc'
                          else FALSE)
            c = eng.content(args[0], st)
            return fresh(eng, st, lift(
                lambda x: x if x.op == 'csc' else mk('csc', x), c), 'csc')
        if fn in ('diags', 'diags_array', 'spdiags'):
            c = eng.content(args[0], st)
            if c.op == 'tuple' and len(c.args[0]) == 1:
                c = c.args[0][0]
            return fresh(eng, st, mk('csc', diag(c)), 'csc')
        if fn in ('eye', 'identity'):
            return fresh(eng, st, mk('csc', mk('eye')), 'csc')
    if root == 'time':
        return impure(eng, name, args, st, node)
    if root in ('random', 'secrets', 'uuid') or name.startswith(
            'numpy.random'):
        return impure(eng, name, args, st, node)
    if name in ('collections.defaultdict', 'collections.OrderedDict',
                'collections.Counter', 'collections.deque'):
        if fn == 'deque':
            return call_builtin(eng, 'list', args, kwargs, st, node, name)
        meta = {}
        if fn == 'defaultdict':
            if args:
                meta['factory'] = args[0]
        r = eng.alloc(st, 'dict', meta=meta)
        src = args[1:] if fn == 'defaultdict' else args
        if src:
            eng.dict_update(r, src[0], st, node)
        for k, v in kwargs.items():
            eng.setitem(r, const(k), v, st, node, quiet=True)
        return r
    if name in ('builtins.dict.fromkeys', 'dict.fromkeys'):
        it = eng.iter_segs(args[0], st, node)
        if it is not None and all(g is TRUE for g, _ in it):
            r = eng.alloc(st, 'dict')
            for _, k in it:
                eng.setitem(r, k, args[1] if len(args) > 1 else NONE, st,
                            node, quiet=True)
            return r
    if name == 'functools.partial':
        return mk('partial', args[0], tuple(args[1:]),
                  tuple(sorted(kwargs.items())))
    if name in ('functools.reduce',):
        f = args[0]
        it = eng.iter_segs(args[1], st, node)
        if it is not None and all(g is TRUE for g, _ in it):
            acc = args[2] if len(args) > 2 else None
            for _, x in it:
                acc = x if acc is None else eng.call(f, [acc, x], {}, st,
                                                     node)
            return acc
    if name in ('itertools.chain',):
        segs = []
        for a in args:
            s = eng.iter_segs(a, st, node)
            if s is None:
                break
            segs += s
        else:
            return eng.alloc(st, 'list', f={'items': mk('segs',
                                                        tuple(segs))})
    if name == 'itertools.count':
        return mk('call', 'count', *args)
    if root == 'typing' and fn in ('cast',):
        return args[1]
    if root in ('enum',) and fn == 'auto':
        return mk('call', 'auto', const(getattr(node, 'lineno', 0)))
    if root == 'dataclasses' and fn == 'replace':
        return do_replace(eng, args[0], kwargs, st, node)
    if root == 'numpy' and fn == 'errstate' or name == \
            'contextlib.suppress':
        return mk('call', name, *[eng.content(a, st) for a in args])
    # anything else: opaque value, recorded
    eng.event('extcall', st, node, name=name, args=args, kwargs=kwargs)
    eng.may_raise(st, node, name)
    if st.dead:
        return mk('undef')
    for k, v in kwargs.items():
        if k.startswith('overwrite') and eng.truth(v, st) is not FALSE and \
                args:
            eng.write_arr(args[0], mk('call', 'overwritten:' + name,
                                      eng.content(args[0], st)), st, node)
    cs = [strip(eng.content(a, st)) for a in args]
    ks = [mk('kw', k, eng.content(v, st)) for k, v in sorted(
        kwargs.items())]
    t = mk('call', name, *cs, *ks)
    if root in ('logging', 'threading', 'h5py', 'warnings', 'os', 'pathlib',
                'builtins', 'weakref'):
        return t
    return fresh(eng, st, t)


def strip(c):
    return c


def caller_dtype(eng, v, st):
    """Does the array have the element type of an array of the caller?"""
    o = eng.obj(v, st)
    n = 0
    while o is not None and n < 20:
        if o.meta.get('user') or o.meta.get('udt'):
            return True
        if o.kind == 'view' and o.f.get('base') is not None:
            v = o.f['base']
            o = eng.obj(v, st)
            n += 1
            continue
        return False
    return False


def mark_dtype(eng, src, new, st, dt=NONE):
    """A copy keeps the element type of its source unless told otherwise."""
    if dt is NONE and caller_dtype(eng, src, st):
        o = eng.obj(new, st)
        if o is not None and o.kind == 'arr':
            o.meta['udt'] = True
    return new


def do_replace(eng, v, kwargs, st, node):
    o = eng.obj(v, st)
    r = eng.alloc(st, 'inst', cls=o.cls, f=dict(o.f), label=o.label)
    for k, x in kwargs.items():
        st.set(r.args[0], k, x)
    return r


def do_copy(eng, fn, v, st, node):
    def f(l, s):
        o = eng.obj(l, s)
        if o is None:
            return l
        if o.kind in ('arr', 'view'):
            return mark_dtype(eng, l, eng.alloc(
                s, 'arr', f={'c': eng.content(l, s)}, label='copy'), s)
        if o.kind in ('list', 'dict', 'set', 'inst'):
            meta = dict(o.meta)
            n = eng.alloc(s, o.kind, cls=o.cls, f=dict(o.f), label=o.label,
                          meta=meta)
            if o.kind == 'inst':
                c = eng.lookup_class(o.cls, '__copy__') if fn == 'copy' \
                    else eng.lookup_class(o.cls, '__deepcopy__')
                if c is not None:
                    return eng.call(mk('bm', l, c), [], {}, s, node)
            if fn == 'deepcopy':
                for k, x in list(o.f.items()):
                    if isinstance(x, T) and x.op in ('ref', 'cases'):
                        s.set(n.args[0], k, do_copy(eng, fn, x, s, node))
                    elif isinstance(x, T) and x.op == 'segs':
                        s.set(n.args[0], k, mk('segs', tuple(
                            (g, do_copy(eng, fn, y, s, node)
                             if y.op == 'ref' else y)
                            for g, y in x.args[0])))
            return n
        return l

    return eng.over_cases(v, st, f)


def note_min(eng, name, t):
    eng.config.setdefault('minsrc', {}).setdefault(t, set()).add(name)


def call_numpy(eng, mod, fn, args, kwargs, st, node):
    out = kwargs.pop('out', None) if 'out' in kwargs else None
    cs = [eng.content(a, st) for a in args]
    kc = {k: eng.content(v, st) for k, v in kwargs.items()}
    orig = fn
    fn = ALIAS.get(fn, fn)

    def ret(t):
        if out is not None and out is not NONE:
            eng.write_arr(out, t, st, node)
            return out
        return fresh(eng, st, t)

    if mod.endswith('linalg'):
        if fn == 'norm':
            return ret(lift(lambda c, o, a: norm_fn(c, o, a),
                            cs[0], _first(cs, kc, 1, 'ord', NONE),
                            _first(cs, kc, 2, 'axis', NONE)))
        for k, v in kwargs.items():
            if k.startswith('overwrite') and kc[k] is not FALSET and args:
                eng.write_arr(args[0], mk('call', 'overwritten', cs[0]), st,
                              node)
        if fn in ('eigvals', 'eigvalsh'):
            eng.may_raise(st, node, fn)
            return ret(lift(lambda c: mk('call', 'eigvals', c), cs[0]))
        if fn in ('eig', 'eigh'):
            eng.may_raise(st, node, fn)
            c = cs[0]
            return tup(fresh(eng, st, lift(
                lambda c: mk('call', 'eigvals', c), c)), fresh(
                eng, st, lift(lambda c: mk('call', 'eigvecs', c), c)))
        if fn == 'lstsq':
            eng.may_raise(st, node, fn)
            cut = _first(cs, kc, 2, 'cond', kc.get('rcond', NONE))
            cut = () if cut is NONE or cut.op == 'ext' else (cut,)
            t = lift(lambda a, b: mk('call', 'lstsq', a, b, *cut),
                     cs[0], cs[1])
            return tup(fresh(eng, st, t),
                       *[mk('call', 'lstsqinfo', num(i), *cs[:2])
                         for i in range(3)])
        if fn in ('cond', 'det', 'inv', 'pinv', 'cholesky'):
            eng.may_raise(st, node, fn)
            return ret(lift(lambda c: mk('call', fn, c), cs[0]))
        if fn in ('solve',):
            eng.may_raise(st, node, fn)
            return ret(lift(lambda a, b: mk('call', fn, a, b), *cs[:2]))
        if fn == 'multi_dot' and cs[0].op == 'tuple':
            r = cs[0].args[0][0]
            for x in cs[0].args[0][1:]:
                r = dot(r, x)
            return ret(r)
        if fn in ('LinAlgError', 'LinAlgWarning'):
            return mk('call', 'numpy.linalg.' + fn, *cs)
        eng.may_raise(st, node, fn)
        return ret(mk('call', mod + '.' + fn, *cs))
    if fn in ('zeros', 'ones', 'empty'):
        sh = _first(cs, kc, 0, 'shape')
        r = shape_rank(sh)
        if r is None:
            return fresh(eng, st, mk(fn, 1))
        return eng.alloc(st, 'arr', f={'c': mk(fn, r)}, label=fn)
    if fn in ('zeros_like', 'ones_like', 'empty_like'):
        c = cs[0]
        r = rank(c)
        if c.op == 'tuple':
            r = 1
        return eng.alloc(st, 'arr', f={'c': mk(fn[:-5], 1 if r is None
                                               else r)}, label=fn)
    if fn in ('full', 'full_like'):
        v = _first(cs, kc, 1, 'fill_value')
        r = shape_rank(cs[0]) if fn == 'full' else rank(cs[0])
        if rank(v) == 0:
            t = mul(v, mk('ones', 1 if r is None else r)) if \
                numval(v) != 0 else mk('zeros', 1 if r is None else r)
            if v is NAN:
                t = mk('prod', ((NAN, Fraction(1)), (mk('ones', r or 1),
                                                     Fraction(1))))
        else:
            t = v
        return eng.alloc(st, 'arr', f={'c': t}, label=fn)
    if fn == 'eye':
        eng.event('eye', st, node, sizes=cs[:2], more=sorted(kc))
        return eng.alloc(st, 'arr', f={'c': mk('eye')}, label='eye')
    if fn in ('array', 'asarray', 'copy'):
        v = args[0]
        c = cs[0]
        dt = _first(args, kwargs, 1, 'dtype', NONE) if fn != 'copy' else NONE
        copyflag = kwargs.get('copy', TRUET)
        alias = fn == 'asarray' or fn == 'array' and copyflag in (
            FALSET, NONE)
        if v.op == 'cases':
            def one(l, s):
                return call_numpy(eng, mod, orig, [l] + args[1:],
                                  dict(kwargs), s, node)

            return eng.over_cases(v, st, one)
        o = eng.obj(v, st)
        if alias and o is not None and o.kind in ('arr', 'view'):
            if c.op == 'csc':
                return eng.alloc(st, 'arr', f={'c': c}, label=fn)
            if dt is NONE or isfloat(dt):
                return v
        if c.op == 'tuple':
            c = _arr_of(c)
        elif c.op == 'segs':
            c = mk('call', 'array', c)
        if o is not None and o.kind == 'inst':
            c = mk('call', 'array', v)
        if rank(c) == 0:
            return c if o is None else c
        r = rank(c)
        if r is None and c.op not in ('sym', 'call', 'mu', 'cases', 'iter',
                                      'getitem'):
            pass
        return mark_dtype(eng, v, eng.alloc(
            st, 'arr', f={'c': c}, label=fn,
            meta={'dtype': dt} if dt is not NONE else None), st, dt)
    if fn == 'where':
        if len(cs) == 1:
            return mk('wheretuple', tob_ew(cs[0]))
        return ret(where3(*cs[:3]))
    if fn == 'choose' and cs[1].op == 'tuple' and len(
            cs[1].args[0]) == 2 and cs[0].op in ('b', 'ew', 'boolarr'):
        a, b = cs[1].args[0]
        return ret(where3(cs[0], b, a))
    if fn == 'nonzero':
        return mk('wheretuple', tob_ew(cs[0]))
    if fn in ('flatnonzero',):
        return mk('idx', tob_ew(cs[0]))
    if fn == 'select':
        conds, vals = cs[0].args[0], cs[1].args[0]
        d = _first(cs, kc, 2, 'default', ZERO)
        for c, v in reversed(list(zip(conds, vals))):
            d = where3(c, v, d)
        return ret(d)
    if fn in ('min', 'max', 'sum', 'any', 'all'):
        ax = _first(cs, kc, 1, 'axis')
        t = reduce_c(eng, fn, cs[0], ax, st, node)
        note_min(eng, orig, t)
        if fn in ('min', 'max', 'sum') and kc.get('initial') is not None:
            t = minmax(fn, t, kc['initial']) if fn != 'sum' else add(
                t, kc['initial'])
        return ret(t)
    if fn == 'prod':
        return ret(mk('call', 'reduce', const('prod'), cs[0]))
    if fn == 'mean':
        return ret(mk('call', 'reduce', const('mean'), cs[0]))
    if fn in ('minimum', 'maximum'):
        t = minmax(fn[:3], *cs[:2])
        note_min(eng, orig, t)
        return ret(t)
    if fn == 'clip':
        lo, hi = _first(cs, kc, 1, 'a_min', NONE), _first(
            cs, kc, 2, 'a_max', NONE)
        t = cs[0]
        if lo is not NONE:
            t = minmax('max', t, lo)
        if hi is not NONE:
            t = minmax('min', t, hi)
        return ret(t)
    if fn in ('argmin', 'argmax', 'nanargmin', 'nanargmax'):
        return argred(fn[-3:], _arr_seq(cs[0]), st, eng)
    if fn == 'power':
        k = numval(cs[1])
        return ret(powr(cs[0], k) if k is not None else ewfun('pow', *cs))
    if fn in ('vstack', 'stack', 'column_stack', 'hstack') and \
            cs[0].op == 'segs':
        c = listed(eng, st, cs[0])
        if c is not cs[0]:
            its = c.args[0] if c.op == 'cases' else [(TRUE, c)]
            return fresh(eng, st, mkcases([(g, eng.content(call_numpy(
                eng, mod, fn, [x, *args[1:]], kwargs, st, node), st))
                for g, x in its]))
    if fn in ('vstack', 'stack'):
        ax = _first(cs, kc, 1, 'axis', ZERO) if fn == 'stack' else ZERO
        t = _stack_rows(eng, cs[0])
        if numval(ax) in (1, -1):
            t = mk('T', t)
        return fresh(eng, st, t)
    if fn in ('column_stack', 'hstack', 'concat', 'block', 'append', 'r_'):
        c = cs[0]
        if fn == 'column_stack' and c.op == 'tuple' and all(
                rank(x) == 1 for x in c.args[0]):
            return fresh(eng, st, mk('T', mk('call', 'vstack',
                                             *c.args[0])))
        its = c.args[0] if c.op == 'tuple' else (c,)
        if fn in ('hstack', 'concat') and all(x.op == 'col' for x in its):
            return fresh(eng, st, mk('T', mk('call', 'vstack', *[
                x.args[0] for x in its])))
        r = rank(its[0]) if its else 1
        t = mk('call', 'concat' if r != 2 else 'block', *its)
        return eng.alloc(st, 'arr', f={'c': t}, label='arr')
    if fn == 'expand_dims':
        base = args[0]
        t = lift(lambda c: expand(c, _first(cs, kc, 1, 'axis')), cs[0])
        return view_or_new(eng, base, t, 'col', st)
    if fn in ('ravel', 'flatten'):
        return args[0] if rank(cs[0]) == 1 else ret(
            mk('call', 'ravel', cs[0]))
    if fn == 'reshape':
        return do_reshape(eng, args[0], cs[0], cs[1], st)
    if fn in ('finfo', 'iinfo'):
        return mk('call', 'finfo')
    if fn == 'isscalar':
        c = cs[0]
        if c.op == 'num' or c.op == 'sym' and 'float' in SYMINFO.get(
                c.args[0], {}).get('pytypes', ()):
            return TRUET
        return bt(atom(mk('call', 'isscalar', c)))
    if fn == 'ndim':
        return ndim_of(cs[0])
    if fn == 'shape':
        return shape_of(cs[0])
    if fn == 'size':
        return size_of(cs[0])
    if fn in ('isclose', 'allclose'):
        ks = [mk('kw', k, v) for k, v in sorted(kc.items())]
        return fresh(eng, st, bt(atom(mk('call', fn, *cs, *ks))))
    if fn in ('fill_diagonal',):
        c = cs[0]
        eng.write_arr(args[0], mk('setitem', c, mk('const', 'diag'), cs[1]),
                      st, node)
        return NONE
    if fn == 'copyto':
        w = kc.get('where')
        c = cs[1]
        if rank(c) == 0:
            c = mul(c, mk('ones', rank(cs[0]) or 1))
        if w is not None:
            c = where3(w, c, cs[0])
        eng.write_arr(args[0], c, st, node)
        return NONE
    if fn in MUTATORS:
        eng.write_arr(args[0], mk('call', fn, *cs), st, node)
        return NONE
    if fn == 'errstate' or fn == 'printoptions':
        return mk('call', 'numpy.errstate')
    if fn in ('seterr', 'seterrcall', 'set_printoptions'):
        eng.event('globalwrite', st, node, name=fn, mod='numpy', value=NONE)
        return mk('call', fn)
    if fn in ('einsum',):
        return ret(mk('call', 'einsum', *cs))
    if fn in ('arange',):
        return mk('call', 'range', *cs)
    if fn == 'trapz':
        return None
    if fn in ('fsum',):
        return ret(reduce_(eng, 'sum', cs[0], None, st, node))
    if fn in ('diff', 'cumsum', 'sort', 'unique', 'linspace', 'round',
              'around', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'floor',
              'ceil', 'log2', 'exp2', 'rint', 'trunc', 'nan_to_num',
              'isreal', 'imag', 'isneginf', 'isposinf', 'signbit',
              'cbrt', 'mod', 'fmod', 'remainder', 'angle'):
        if fn in ('diff', 'cumsum', 'sort', 'unique', 'linspace'):
            return ret(mk('call', 'np1.' + fn, *cs))
        ks = [mk('kw', k, v) for k, v in sorted(kc.items())]
        if kwargs.get('copy') is FALSET:
            eng.write_arr(args[0], ewfun(fn, *cs, *ks), st, node)
            return args[0]
        return ret(ewfun(fn, *cs, *ks))
    if fn in PURE:
        w = kc.get('where')
        if fn == 'transpose' and rank(cs[0]) == 2:
            return arr_attr(eng, args[0], 'T', st, node) if eng.obj(
                args[0], st) else transpose(cs[0])
        if fn == 'diag' and rank(cs[0]) is None:
            return ret(mk('call', 'diag', *cs))
        f = PURE[fn]
        if fn in ('real', 'conj', 'conjugate', 'real_if_close',
                  'ascontiguousarray', 'positive') and eng.obj(
                      args[0], st) is not None:
            return args[0]
        conv = [_arr_of(c) if c.op == 'tuple' else c for c in cs]
        n = f.__code__.co_argcount
        conv = conv[:n] if n else conv
        t = f(*conv)
        if w is not None and out is not None:
            t = where3(w, t, eng.content(out, st))
        return ret(t)
    return None


def _arr_seq(c):
    return c


def reduce_c(eng, fn, c, ax, st, node):
    if c.op == 'cases':
        return lift(lambda x: reduce_c(eng, fn, x, ax, st, node), c)
    return reduce_(eng, fn, c, ax, st, node)


def isfloat(dt):
    return dt.op == 'ext' and dt.args[0].split('.')[-1] in (
        'float', 'float64', 'double')


def view_or_new(eng, base, t, kind, st):
    o = eng.obj(base, st)
    if o is None or t.op != 'col':
        return fresh(eng, st, t)
    return eng.alloc(st, 'view', f={'base': base}, label='view', meta={
        'vk': 'fn',
        'read': lambda b: lift(lambda c: mk('col', c), b),
        'write': lambda b, new: new.args[0] if new.op == 'col' else mk(
            'call', 'uncol', new)})


EXTRANK['uncol'] = 1


def do_reshape(eng, v, c, sh, st):
    if sh.op == 'num' and sh.args[0] == -1 and rank(c) == 1:
        return v
    if sh.op == 'tuple' and rank(c) == 1:
        d = sh.args[0]
        if len(d) == 2 and numval(d[1]) == 1:
            return view_or_new(eng, v, mk('col', c), 'col', st)
        if len(d) == 1:
            return v
        if len(d) == 2 and numval(d[0]) == 1:
            return fresh(eng, st, mk('T', mk('col', c)))
    r = len(sh.args[0]) if sh.op == 'tuple' else 1
    EXTRANK.setdefault('reshape%d' % r, r)
    return fresh(eng, st, mk('call', 'reshape%d' % r, c, sh))


# ------------------------------------------------------------------ methods
ARR_NP = {
    'dot': 'dot', 'sum': 'sum', 'min': 'min', 'max': 'max', 'any': 'any',
    'all': 'all', 'argmin': 'argmin', 'argmax': 'argmax', 'mean': 'mean',
    'transpose': 'transpose', 'conj': 'conj', 'conjugate': 'conj',
    'diagonal': 'diagonal', 'nonzero': 'nonzero', 'clip': 'clip',
    'ravel': 'ravel', 'squeeze': 'squeeze', 'trace': 'trace',
    'multiply': 'multiply', 'power': 'power', 'prod': 'prod',
    'reshape': 'reshape', 'cumsum': 'cumsum', '__matmul__': 'matmul',
}


def arr_method(eng, recv, name, args, kwargs, st, node):
    if recv.op == 'cases':
        return eng.over_cases(recv, st, lambda l, s: arr_method(
            eng, l, name, args, kwargs, s, node))
    c = eng.content(recv, st)
    if name in ('copy', '__copy__', '__deepcopy__'):
        if rank(c) == 0:
            return c
        return mark_dtype(eng, recv, eng.alloc(
            st, 'arr', f={'c': c}, label='copy'), st)
    if name == 'flatten':
        return mark_dtype(eng, recv, eng.alloc(
            st, 'arr', f={'c': c if rank(c) == 1 else mk(
                'call', 'ravel', c)}, label='copy'), st)
    if name == 'astype':
        if args and isfloat(args[0]):
            if kwargs.get('copy') is FALSET:
                return recv
            if c.op == 'b' and rank(c):
                c = ew(c.args[0], mk('ones', rank(c)), mk('zeros', rank(c)))
            return eng.alloc(st, 'arr', f={'c': c}, label='copy',
                             meta={'dtype': args[0]})
        return eng.alloc(st, 'arr', f={'c': mk('ewfun', 'astype:' + show(
            args[0] if args else NONE), c)}, label='copy')
    if name in ('toarray', 'todense', 'A', 'tocsc', 'tocsr', 'tocoo'):
        if name.startswith('to') and name[2:] in ('csc', 'csr', 'coo'):
            return recv
        return eng.alloc(st, 'arr', f={'c': strip_csc(c)}, label='dense')
    if name == 'reshape':
        sh = tup(*[eng.content(a, st) for a in args]) if len(args) > 1 else \
            eng.content(args[0], st)
        return do_reshape(eng, recv, c, sh, st)
    if name == 'item':
        if args:
            return eng.getitem_content(c, eng.content(args[0], st))
        return c if rank(c) == 0 else mk('call', 'item', c)
    if name == 'tolist':
        return mk('call', 'tolist', c)
    if name == 'fill':
        v = eng.content(args[0], st)
        eng.write_arr(recv, mul(v, mk('ones', rank(c) or 1)) if numval(
            v) != 0 else mk('zeros', rank(c) or 1), st, node)
        return NONE
    if name in ('sort', 'put', 'itemset', 'resize', 'partition', 'setdiag',
                'setflags', '__setitem__', 'byteswap', 'eliminate_zeros',
                'sort_indices', 'sum_duplicates'):
        if name in ('setflags', 'eliminate_zeros', 'sort_indices',
                    'sum_duplicates'):
            return NONE
        if name == '__setitem__':
            eng.setitem(recv, args[0], args[1], st, node)
            return NONE
        eng.write_arr(recv, mk('call', 'arr.' + name, c, *[
            eng.content(a, st) for a in args]), st, node)
        return NONE
    if name in ('is_integer',):
        return bt(atom(mk('call', 'is_integer', c)))
    if name in ARR_NP:
        if name in ('multiply',) and c.op == 'csc':
            return fresh(eng, st, mk('csc', mul(c.args[0], strip_csc(
                eng.content(args[0], st)))))
        return call_numpy(eng, 'numpy', ARR_NP[name], [recv] + args,
                          dict(kwargs), st, node)
    if name in ('__mul__', '__add__', '__sub__'):
        import ast as _ast

        op = {'__mul__': _ast.Mult, '__add__': _ast.Add,
              '__sub__': _ast.Sub}[name]()
        return eng.binop(op, recv, args[0], st, node)
    if name in ('round', 'std', 'var', 'argsort', 'repeat', 'take', 'view',
                'swapaxes', 'count_nonzero', 'getnnz', 'searchsorted',
                'tobytes', 'getrow', 'getcol', 'nnz', 'cumprod', 'ptp'):
        if name == 'view':
            return recv
        return fresh(eng, st, mk('call', 'arr.' + name, c, *[
            eng.content(a, st) for a in args]))
    # unknown method: may have changed the array
    eng.unknown_op('array method ' + name, node, st)
    eng.write_arr(recv, mk('call', 'arr.' + name, c), st, node)
    return mk('call', 'arrm.' + name, c, *[eng.content(a, st) for a in args])


def call_extmethod(eng, recv, name, args, kwargs, st, node):
    kind, _, m = name.partition('.')
    if kind == 'arr':
        return arr_method(eng, recv, m, args, kwargs, st, node)
    args = [simplify(a, st.pc) if a.op == 'cases' else a for a in args]
    if kind == 'list':
        return list_method(eng, recv, m, args, kwargs, st, node)
    if kind == 'dict':
        return dict_method(eng, recv, m, args, kwargs, st, node)
    if kind == 'set':
        return set_method(eng, recv, m, args, kwargs, st, node)
    if kind == 'str':
        return str_method(eng, recv, m, args, kwargs, st, node)
    if kind == 'tuple':
        if m in ('index', 'count'):
            if m == 'index' and len(args) == 1:
                k = index_of_min(tuple((TRUE, x) for x in recv.args[0]),
                                 args[0], eng, st)
                if k is not None:
                    return k
            return mk('call', 'tuple.' + m, eng.content(recv, st),
                      *[eng.content(a, st) for a in args])
    if kind == 'object':
        if m == '__init__':
            return NONE
        if m == '__setattr__' or m == '__setattr__':
            nm = args[-2]
            if nm.op == 'const':
                eng.setattr(recv if len(args) == 2 else args[0],
                            nm.args[0], args[-1], st, node)
            return NONE
        if m == '__new__' and args and args[0].op == 'cls':
            return eng.alloc(st, 'inst', cls=args[0].args[0])
    return mk('call', name, *[eng.content(a, st) for a in args])


def list_method(eng, recv, m, args, kwargs, st, node):
    o = eng.obj(recv, st)
    if m == 'append':
        eng.list_append(recv, args[0], st, node)
        return NONE
    if m == 'extend':
        eng.list_extend(recv, args[0], st, node)
        return NONE
    if m == 'copy':
        return eng.alloc(st, 'list', f={'items': o.f['items']})
    if m == 'insert' and numval(args[0]) is not None:
        it = eng.seq_items(recv, st)
        if it is not None:
            it.insert(int(numval(args[0])), args[1])
            st.set(recv.args[0], 'items', mk('segs', tuple(
                (TRUE, x) for x in it)))
            eng.event('listset', st, node, recv=recv, key=args[0],
                      value=args[1])
            return NONE
        if numval(args[0]) == 0:
            st.set(recv.args[0], 'items', mk(
                'segs', ((TRUE, args[1]),) + o.f['items'].args[0]))
            eng.event('listset', st, node, recv=recv, key=args[0],
                      value=args[1])
            return NONE
    if m == 'pop':
        it = eng.seq_items(recv, st)
        i = numval(args[0]) if args else -1
        if it and i is not None and -len(it) <= i < len(it):
            x = it.pop(int(i))
            st.set(recv.args[0], 'items', mk('segs', tuple(
                (TRUE, y) for y in it)))
            eng.event('listset', st, node, recv=recv, key=NONE, value=NONE)
            return x
    if m == 'clear':
        st.set(recv.args[0], 'items', mk('segs', ()))
        eng.event('listset', st, node, recv=recv, key=NONE, value=NONE)
        return NONE
    if m == 'index' and len(args) == 1:
        k = index_of_min(o.f['items'].args[0], args[0], eng, st)
        if k is not None:
            return k
    if m in ('index', 'count', '__len__'):
        return mk('call', 'list.' + m, o.f['items'],
                  *[eng.content(a, st) for a in args])
    eng.event('listset', st, node, recv=recv, key=NONE, value=NONE)
    x = mk('call', 'list.' + m, o.f['items'])
    st.set(recv.args[0], 'items', mk('segs', ((TRUE, mk(
        'mulist', 'op', x)),)))
    return mk('call', 'listm.' + m, o.f['items'])


def dict_method(eng, recv, m, args, kwargs, st, node):
    o = eng.obj(recv, st)
    opaque = o.meta.get('opaque')
    if m == 'get':
        d = args[1] if len(args) > 1 else kwargs.get('default', NONE)
        k = args[0]
        if k.op == 'cases':
            return eng.over_cases(k, st, lambda l, s: dict_method(
                eng, recv, m, [l] + args[1:], kwargs, s, node))
        kd = eng.dkey(eng.content(k, st) if k.op == 'ref' else k)
        if opaque:
            return lift(lambda dd: mk('dictget', opaque, kd, dd), d)
        g = eng.in_(k, recv, st, node)
        return eng.branch(
            st, g, lambda s: eng.dict_getitem(recv, k, s, node),
            lambda s: d)
    if m == 'items':
        if opaque:
            return mk('call', 'dictitems', opaque)
        if o.f.get('?', ABSENT) is not ABSENT:
            return mk('call', 'dictitems', recv)
        segs = []
        for k, v in o.f.items():
            if isinstance(k, tuple) and v is not ABSENT:
                g = TRUE
                if v.op == 'cases':
                    ab = disj(*[gg for gg, l in v.args[0] if l is ABSENT])
                    g = ~ab
                    if ab is not FALSE:
                        v = simplify(v, g)
                segs.append((g, tup(k[1], v)))
        return eng.alloc(st, 'list', f={'items': mk('segs', tuple(segs))})
    if m in ('keys', '__iter__'):
        return recv if not opaque else mk('call', 'dictkeys', opaque)
    if m == 'values':
        if opaque or o.f.get('?', ABSENT) is not ABSENT:
            return mk('call', 'dictvalues', opaque or recv)
        its = dict_method(eng, recv, 'items', [], {}, st, node)
        segs = st.heap[its.args[0]].f['items'].args[0]
        return eng.alloc(st, 'list', f={'items': mk('segs', tuple(
            (g, x.args[0][1]) for g, x in segs))})
    if m == 'update':
        eng.event('dictset', st, node, recv=recv, key=NONE,
                  value=args[0] if args else NONE)
        if args:
            segs = eng.iter_segs(args[0], st, node)
            so = eng.obj(args[0], st)
            if (args[0].op == 'tuple' or so is not None and
                    so.kind == 'list') and segs is not None and all(
                    x.op == 'tuple' for _, x in segs):
                for g, x in segs:
                    eng.setitem(recv, x.args[0][0], x.args[0][1], st, node,
                                quiet=True)
            else:
                eng.dict_update(recv, args[0], st, node)
        for k, v in kwargs.items():
            eng.setitem(recv, const(k), v, st, node, quiet=True)
        return NONE
    if m == 'setdefault':
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        if opaque:
            eng.event('dictset', st, node, recv=recv, key=k, value=d)
            return mk('dictget', opaque, eng.dkey(k), d)
        g = eng.in_(k, recv, st, node)

        def setd(s):
            eng.setitem(recv, k, d, s, node)
            return d

        return eng.branch(st, g,
                          lambda s: eng.dict_getitem(recv, k, s, node), setd)
    if m == 'copy':
        return do_copy(eng, 'copy', recv, st, node)
    if m == 'pop':
        k = eng.dkey(args[0])
        if opaque:
            eng.event('dictset', st, node, recv=recv, key=k, value=NONE)
            return mk('dictget', opaque, k, args[1] if len(args) > 1
                      else NONE)
        v = o.f.get(('k', k), ABSENT)
        if v is ABSENT and len(args) > 1:
            return args[1]
        st.set(recv.args[0], ('k', k), ABSENT)
        eng.event('dictset', st, node, recv=recv, key=k, value=NONE)
        return v
    if m == 'clear':
        eng.event('dictset', st, node, recv=recv, key=NONE, value=NONE)
        st.heap[recv.args[0]] = Obj_like(o)
        return NONE
    return mk('call', 'dict.' + m, recv)


def Obj_like(o):
    n = o.copy()
    n.f = {}
    return n


def set_method(eng, recv, m, args, kwargs, st, node):
    o = eng.obj(recv, st)
    if m == 'add':
        st.set(recv.args[0], 'v', setadd(o.f['v'],
                                  eng.content(args[0], st)))
        eng.event('setwrite', st, node, recv=recv)
        return NONE
    if m == 'copy':
        return eng.alloc(st, 'set', f=dict(o.f))
    if m in ('update', 'discard', 'remove', 'clear', 'pop',
             'intersection_update', 'difference_update'):
        v = mk('set0') if m == 'clear' else mk(
            'setop', m, o.f['v'], *[eng.content(a, st) for a in args])
        st.set(recv.args[0], 'v', v)
        eng.event('setwrite', st, node, recv=recv)
        if m == 'pop':
            eng.event('setiter', st, node, recv=recv)
            return mk('call', 'set.pop', o.f['v'])
        return NONE
    if m in ('union', 'intersection', 'difference',
             'symmetric_difference'):
        return eng.alloc(st, 'set', f={'v': mk('setop', m, o.f['v'], *[
            eng.content(a, st) for a in args])})
    return bt(atom(mk('call', 'set.' + m, o.f['v'],
                      *[eng.content(a, st) for a in args])))


def str_method(eng, recv, m, args, kwargs, st, node):
    if recv.op == 'const' and all(a.op == 'const' for a in args) and m in (
            'upper', 'lower', 'strip', 'startswith', 'endswith', 'replace',
            'title'):
        r = getattr(recv.args[0], m)(*[a.args[0] for a in args])
        return const(r)
    if m == 'join':
        c = eng.content(args[0], st)
        return mk('fstr', 'join', recv, c)
    if m in ('split', 'rsplit', 'partition'):
        return mk('call', 'str.' + m, recv)
    return mk('fstr', m, recv, *[eng.content(a, st) for a in args])


# ------------------------------------------------------------------ builtins
EXCS = ('Exception', 'Error', 'Warning', 'StopIteration', 'Interrupt')


def call_builtin(eng, fn, args, kwargs, st, node, name):
    ct = [eng.content(a, st) for a in args]
    if fn.endswith(EXCS):
        return mk('call', 'builtins.' + fn, *ct)
    if fn == 'len':
        return length(eng, args[0], st, node)
    if fn == 'isinstance':
        return bt(eng.isinstance(args[0], args[1], st))
    if fn == 'issubclass':
        if args[0].op == 'cls' and args[1].op == 'cls':
            return bt(TRUE if eng.issub(args[0].args[0], args[1].args[0])
                      else FALSE)
        return bt(atom(mk('call', 'issubclass', *ct)))
    if fn == 'callable':
        o = eng.obj(args[0], st)
        if args[0].op in ('func', 'bm', 'cls', 'ext'):
            return TRUET
        return bt(atom(mk('call', 'callable', ct[0])))
    if fn == 'hasattr':
        return do_hasattr(eng, args[0], args[1], st, node)
    if fn == 'getattr':
        nm = args[1]
        if nm.op == 'const':
            if len(args) > 2:
                h = do_hasattr(eng, args[0], nm, st, node)
                return eng.branch(
                    st, eng.truth(h, st),
                    lambda s: eng.getattr(args[0], nm.args[0], s, node),
                    lambda s: args[2])
            return eng.getattr(args[0], nm.args[0], st, node)
        eng.unknown_op('getattr with computed name', node, st)
        return mk('call', 'getattr', *ct)
    if fn == 'setattr':
        if args[1].op == 'const':
            eng.setattr(args[0], args[1].args[0], args[2], st, node)
        else:
            eng.unknown_op('setattr with computed name', node, st)
        return NONE
    if fn in ('abs',):
        return eng.wrap(st, abs_(ct[0]))
    if fn in ('float',):
        c = ct[0]
        if c.op == 'const' and isinstance(c.args[0], str):
            s = c.args[0].lower().strip()
            if s in ('inf', '+inf', 'infinity'):
                return INF
            if s in ('-inf', '-infinity'):
                return neg(INF)
            if s == 'nan':
                return NAN
        if rank(c) == 1:
            return mk('call', 'item', c)
        if c.op == 'b':
            return lift_ew(lambda x: x, c)
        return c
    if fn == 'int':
        c = ct[0]
        v = numval(c)
        if v is not None:
            return num(int(v))
        if c.op == 'b':
            return phi(c.args[0], ONE, ZERO)
        if c.op in ('argmin', 'argmax', 'len'):
            return c
        return mk('ewfun', 'int', c)
    if fn == 'bool':
        return bt(eng.truth(args[0], st)) if args else FALSET
    if fn == 'str' or fn == 'repr' or fn == 'format':
        if ct and ct[0].op == 'const' and isinstance(ct[0].args[0], str) \
                and fn == 'str':
            return ct[0]
        return mk('fstr', fn, *ct)
    if fn in ('min', 'max'):
        its = args
        if len(args) == 1:
            segs = eng.iter_segs(args[0], st, node)
            key = kwargs.get('key')
            if key is not None and key is not NONE:
                return min_key(eng, fn, args[0], key, segs, st, node)
            if segs is None:
                c = ct[0]
                if rank(c) == 1:
                    return reduce_minmax('r' + fn, c)
                return mk('call', 'reduce', const(fn), c)
            if any(g is not TRUE or x.op in ('splat', 'splatvar', 'mulist')
                   for g, x in segs):
                return mk('call', 'reduce', const(fn), ct[0])
            its = [x for _, x in segs]
        elif kwargs.get('key') is not None:
            lst = eng.new_list(st, list(args))
            return min_key(eng, fn, lst, kwargs['key'],
                           eng.iter_segs(lst, st, node), st, node)
        t = minmax(fn, *[eng.content(x, st) for x in its])
        note_min(eng, 'builtin:' + ','.join(
            str(eng.content(x, st).id) for x in its), t)
        return t
    if fn == 'sum':
        segs = eng.iter_segs(args[0], st, node)
        if segs is not None and all(
                g is TRUE and x.op not in ('splat', 'splatvar', 'mulist')
                for g, x in segs):
            r = ct[1] if len(ct) > 1 else ZERO
            for _, x in segs:
                r = add(r, eng.content(x, st))
            return eng.wrap(st, r)
        if rank(ct[0]) == 1:
            return vsum(ct[0])
        return mk('call', 'reduce', const('sum'), ct[0])
    if fn in ('any', 'all'):
        segs = eng.iter_segs(args[0], st, node)
        if segs is not None:
            r = FALSE if fn == 'any' else TRUE
            for g, x in segs:
                if x.op in ('splat', 'splatvar', 'mulist'):
                    return bt(atom(mk('call', 'reduce', const(fn), ct[0])))
                t = eng.truth(x, st)
                r = r | (g & t) if fn == 'any' else r & (~g | t)
            return bt(r)
        c = ct[0]
        if c.op in ('b', 'ew') or rank(c) == 1:
            b = tob_ew(c)
            return bt(any_(b) if fn == 'any' else all_(b))
        return bt(atom(mk('call', 'reduce', const(fn), c)))
    if fn == 'range':
        cs = list(ct)
        if len(cs) == 2 and numval(cs[0]) == 0:
            cs = cs[1:]
        return mk('call', 'range', *cs)
    if fn == 'enumerate':
        segs = eng.iter_segs(args[0], st, node)
        start = args[1] if len(args) > 1 else kwargs.get('start', ZERO)
        if segs is not None and all(
                g is TRUE and x.op not in ('splat', 'splatvar', 'mulist')
                for g, x in segs):
            return mk('tuple', tuple(tup(add(num(i), start), x)
                                     for i, (_, x) in enumerate(segs)))
        if segs is not None:
            return eng.alloc(st, 'list', f={'items': mk('segs', tuple(
                enum_items(eng, segs, st)))})
        return mk('call', 'enumerate', args[0])
    if fn == 'zip':
        return do_zip(eng, args, st, node)
    if fn == 'map':
        segs = eng.iter_segs(args[1], st, node)
        if segs is not None and len(args) == 2:
            return seg_map(eng, args[0], segs, st, node)
        return mk('call', 'map', *ct)
    if fn == 'filter':
        segs = eng.iter_segs(args[1], st, node)
        if segs is not None and not any(
                x.op in ('splat', 'splatvar', 'mulist') for _, x in segs):
            out = []
            for g, x in segs:
                t = eng.truth(eng.call(args[0], [x], {}, st, node), st)
                if g & t is not FALSE:
                    out.append((g & t, x))
            return eng.alloc(st, 'list', f={'items': mk('segs',
                                                        tuple(out))})
        return mk('call', 'filter', *ct)
    if fn in ('list', 'tuple', 'sorted', 'reversed', 'iter'):
        if not args:
            return eng.new_list(st, []) if fn == 'list' else tup()
        return do_seq(eng, fn, args, kwargs, st, node)
    if fn == 'next':
        segs = eng.iter_segs(args[0], st, node)
        if segs:
            out = []
            rest = TRUE
            for g, x in segs:
                if x.op in ('splat', 'splatvar', 'mulist'):
                    return mk('call', 'next', *ct)
                out.append((rest & g, x))
                rest = rest & ~g
                if rest is FALSE:
                    break
            if rest is not FALSE:
                if len(args) > 1:
                    out.append((rest, args[1]))
                else:
                    bad = st.fork(rest)
                    eng.do_raise(bad, node, 'StopIteration', None)
                    st.pc = st.pc & ~rest
            return mkcases(out)
        return mk('call', 'next', *ct)
    if fn == 'dict':
        r = eng.alloc(st, 'dict')
        if args:
            dict_method(eng, r, 'update', args, {}, st, node)
        for k, v in kwargs.items():
            eng.setitem(r, const(k), v, st, node, quiet=True)
        return r
    if fn in ('set', 'frozenset'):
        r = eng.alloc(st, 'set', f={'v': mk('set0')})
        if args:
            so = eng.obj(args[0], st)
            if so is not None and so.kind == 'set':
                st.set(r.args[0], 'v', so.f['v'])
                return r
            segs = eng.iter_segs(args[0], st, node)
            if segs is not None and all(g is TRUE for g, _ in segs):
                v = mk('set0')
                for _, x in segs:
                    v = setadd(v, eng.content(x, st))
            else:
                v = mk('setop', 'from', mk('set0'), ct[0])
            st.set(r.args[0], 'v', v)
        return r
    if fn == 'type':
        if len(args) == 1:
            o = eng.obj(args[0], st)
            if o is not None and o.kind == 'inst' and not o.meta.get(
                    'anysub'):
                return mk('cls', o.cls)
            if args[0].op == 'enum':
                return mk('cls', args[0].args[0].rsplit('.', 1)[0])
            return mk('call', 'type', ct[0])
    if fn == 'super':
        if len(args) == 2 and args[0].op == 'cls':
            return mk('super', args[0].args[0], args[1])
    if fn == 'id' or fn == 'hash' or fn == 'object':
        if fn == 'id' or fn == 'object':
            return impure(eng, 'builtins.' + fn, args, st, node)
        return impure(eng, 'builtins.hash', args, st, node)
    if fn == 'round':
        return mk('ewfun', 'round', *ct)
    if fn == 'pow':
        k = numval(ct[1])
        return powr(ct[0], k) if k is not None else ewfun('pow', *ct[:2])
    if fn == 'divmod':
        return tup(ewfun('floordiv', *ct), ewfun('mod', *ct))
    if fn == 'slice':
        a = ct + [NONE] * (3 - len(ct))
        if len(ct) == 1:
            a = [NONE, ct[0], NONE]
        return mk('slice', *a)
    if fn == 'vars' or fn == 'locals' or fn == 'globals' or fn == 'dir':
        eng.unknown_op('reflection ' + fn, node, st)
        return mk('call', fn, *ct)
    if fn in ('exec', 'eval', 'compile', '__import__'):
        eng.unknown_op('dynamic code ' + fn, node, st)
        return mk('call', fn, *ct)
    if fn == 'print':
        eng.event('extcall', st, node, name='builtins.print', args=args,
                  kwargs=kwargs)
        return NONE
    if fn in ('property', 'staticmethod', 'classmethod'):
        return mk(fn, args[0])
    if fn in ('open', 'input'):
        eng.event('extcall', st, node, name='builtins.' + fn, args=args,
                  kwargs=kwargs)
        return mk('call', 'builtins.' + fn, *ct)
    if fn == 'float64':
        return ct[0]
    if name.startswith('object.'):
        return NONE
    eng.event('extcall', st, node, name=name, args=args, kwargs=kwargs)
    return mk('call', name, *ct)


def enum_items(eng, segs, st):
    out, known = [], True
    for i, (g, x) in enumerate(segs):
        k = num(i) if known else mk('iter', 'count', x)
        if x.op in ('splat', 'splatvar', 'mulist'):
            known = False
            out.append((g, mk('splat', ('enum', x), ((TRUE, tup(
                mk('iter', 'count', x), eng.splat_element(x, st))),))))
        else:
            known = known and g is TRUE
            out.append((g, tup(k, x)))
    return out


def seg_map(eng, f, segs, st, node):
    out = []
    for g, x in segs:
        if x.op in ('splat', 'splatvar', 'mulist'):
            el = eng.splat_element(x, st)
            out.append((g, mk('splat', 'map', (
                (TRUE, eng.call(f, [el], {}, st, node)),))))
        else:
            out.append((g, eng.call(f, [x], {}, st, node)))
    return eng.alloc(st, 'list', f={'items': mk('segs', tuple(out))})


def index_of_min(segs, v, eng, st):
    """list.index(min(list))"""
    v = eng.content(v, st)
    if v.op == 'call' and v.args[0] == 'reduce' and v.args[1].op == 'const' \
            and v.args[1].args[0] in ('min', 'max') and \
            v.args[2].op == 'segs' and v.args[2].args[0] == tuple(segs):
        return mk('arg' + v.args[1].args[0], v.args[2])
    if all(g is TRUE and x.op not in ('splat', 'splatvar', 'mulist')
           for g, x in segs) and len(segs) > 1:
        xs = [eng.content(x, st) for _, x in segs]
        for fn in ('min', 'max'):
            if v is minmax(fn, *xs):
                return mk('arg' + fn, tup(*xs))
    return None


def min_key(eng, fn, seq, key, segs, st, node):
    if segs is None:
        return mk('call', 'min_key', eng.content(seq, st))
    vals = key_values(eng, key, segs, st, node)
    return mk('pick', mk('arg' + fn, untied(vals, segs, eng, st) if fn == 'min'
                         else vals), mk('segs', tuple(segs)))


def untied(vals, segs, eng, st):
    """Keys (value, position) order like the values: the first one wins."""
    def first(v, x, rest):
        if v.op == 'splat':
            el = eng.splat_element(x, st)
            y = first(v.args[1][0][1], el, True)
            return y and mk('splat', v.args[0], ((TRUE, y),))
        it = eng.seq_items(v, st)
        if it is None or len(it) != 2:
            return None
        xs = eng.seq_items(x, st)
        if xs is None or it[1] not in xs or not (
                numval(it[1]) is not None
                or it[1].op == 'iter' and it[1].args[0] == 'count'):
            return None
        return it[0]

    if vals.op == 'tuple':
        its = [(TRUE, x) for x in vals.args[0]]
    else:
        its = vals.args[0]
    ys = [first(v, x, False) for (_, v), (_, x) in zip(its, segs)]
    if None in ys:
        return vals
    return tup(*ys) if vals.op == 'tuple' else mk('segs', tuple(
        (g, y) for (g, _), y in zip(its, ys)))


def key_values(eng, key, segs, st, node):
    vals = []
    for g, x in segs:
        if x.op in ('splat', 'splatvar', 'mulist'):
            el = eng.splat_element(x, st)
            v = eng.content(eng.call(key, [el], {}, st, node), st)
            vals.append((g, mk('splat', x.args[0] if x.op == 'splat'
                               else x, ((TRUE, v),))))
        else:
            vals.append((g, eng.content(eng.call(key, [x], {}, st, node),
                                        st)))
    return mk('segs', tuple(vals)) if not all(
        g is TRUE and x.op != 'splat' for g, x in vals) else tup(
            *[x for _, x in vals])


def do_zip(eng, args, st, node):
    segs = [eng.iter_segs(a, st, node) for a in args]
    if all(s is not None for s in segs) and segs:
        plain = all(
            g is TRUE and x.op not in ('splat', 'splatvar', 'mulist')
            for s in segs for g, x in s)
        if plain:
            n = min(len(s) for s in segs)
            return mk('tuple', tuple(
                tup(*[s[i][1] for s in segs]) for i in range(n)))
        if len({len(s) for s in segs}) == 1 and all(
                all(s[i][0] is segs[0][i][0] for s in segs)
                for i in range(len(segs[0]))):
            out = []
            for i in range(len(segs[0])):
                xs = [s[i][1] for s in segs]
                if any(x.op in ('splat', 'splatvar', 'mulist') for x in xs):
                    els = [eng.splat_element(x, st) if x.op in (
                        'splat', 'splatvar', 'mulist') else x for x in xs]
                    out.append((segs[0][i][0], mk('splat', 'zip', (
                        (TRUE, tup(*els)),))))
                else:
                    out.append((segs[0][i][0], tup(*xs)))
            return eng.alloc(st, 'list', f={'items': mk('segs',
                                                        tuple(out))})
    return mk('call', 'zip', *args)


def do_seq(eng, fn, args, kwargs, st, node):
    v = args[0]
    if v.op == 'cases':
        return eng.over_cases(v, st, lambda l, s: do_seq(
            eng, fn, [l] + args[1:], kwargs, s, node))
    o = eng.obj(v, st)
    if o is not None and o.kind == 'set':
        if fn != 'sorted':
            eng.event('setiter', st, node, recv=v)
        return mk('call', fn, o.f['v'])
    segs = eng.iter_segs(v, st, node)
    if segs is None:
        c = eng.content(v, st)
        return mk('call', fn, c)
    if fn == 'sorted':
        key = kwargs.get('key')
        ks = NONE if key is None or key is NONE else key_values(
            eng, key, segs, st, node)
        return mk('call', 'sorted', mk('segs', tuple(segs)), ks,
                  kwargs.get('reverse', FALSET))
    if fn == 'reversed':
        segs = list(reversed(segs))
    plain = all(g is TRUE and x.op not in ('splat', 'splatvar', 'mulist')
                for g, x in segs)
    if fn == 'tuple' and plain:
        return mk('tuple', tuple(x for _, x in segs))
    return eng.alloc(st, 'list', f={'items': mk('segs', tuple(segs))})


def length(eng, v, st, node):
    if v.op == 'cases':
        return eng.over_cases(v, st, lambda l, s: length(eng, l, s, node))
    it = eng.seq_items(v, st)
    if it is not None:
        return num(len(it))
    o = eng.obj(v, st)
    if o is not None and o.kind == 'inst':
        m = eng.lookup_class(o.cls, '__len__')
        if m is not None:
            return eng.call(mk('bm', v, m), [], {}, st, node)
    if o is not None and o.kind == 'dict' and not o.meta.get('opaque'):
        ks = [x for k, x in o.f.items() if isinstance(k, tuple)]
        if all(x is not ABSENT and x.op != 'cases' for x in ks) and o.f.get(
                '?', ABSENT) is ABSENT:
            return num(len(ks))
        return mk('len', v)
    if o is not None and o.kind == 'list':
        segs = o.f['items'].args[0]
        if not any(x.op in ('splat', 'splatvar', 'mulist')
                   for _, x in segs):
            r = ZERO
            for g, _ in segs:
                r = add(r, phi(g, ONE, ZERO))
            return r
        return mk('len', o.f['items'])
    if o is not None and o.kind == 'set':
        return mk('len', o.f['v'])
    c = eng.content(v, st)
    if v.op == 'call' and v.args[0] == 'range' and len(v.args) == 2:
        return v.args[1]
    if c.op == 'const' and isinstance(c.args[0], str):
        return num(len(c.args[0]))
    if c.op == 'enum':
        return mk('len', c)
    if c.op == 'shape':
        return mk('call', 'ndim', c.args[0])
    if known_shape(c) == ():
        eng.do_raise(st, node, 'TypeError', None)
        return mk('undef')
    return len_of(c)


def do_hasattr(eng, v, nm, st, node):
    if v.op == 'cases':
        return eng.over_cases(v, st, lambda l, s: do_hasattr(
            eng, l, nm, s, node))
    o = eng.obj(v, st)
    name = nm.args[0] if nm.op == 'const' else None
    if o is not None and o.kind == 'inst' and name:
        x = o.f.get(name, ABSENT)
        if x is not ABSENT and x.op != 'cases':
            return TRUET
        if eng.lookup_class(o.cls, name) is not None:
            return TRUET
        if x.op == 'cases':
            return bt(disj(*[g for g, l in x.args[0] if l is not ABSENT]))
        if o.meta.get('lazy') or o.meta.get('anysub'):
            return bt(atom(mk('call', 'hasattr', v, nm)))
        return FALSET
    return bt(atom(mk('call', 'hasattr', eng.content(v, st), nm)))


# ------------------------------------------------------------- unknown calls
def call_unknown(eng, f, args, kwargs, st, node):
    """Call of a value that is neither a package function nor modelled."""
    if f.op == 'bmx':
        return method_of_value(eng, f.args[0], f.args[1].args[0], args,
                               kwargs, st, node)
    if f.op == 'sym' and SYMINFO.get(f.args[0], {}).get('userfun'):
        return user_call(eng, f, args, kwargs, st, node)
    if f.op == 'property':
        eng.unknown_op('call of property', node, st)
    e = eng.event('extcall', st, node, name='value:' + show(f), args=args,
                  kwargs=kwargs)
    eng.may_raise(st, node, 'call')
    return mk('call', 'result', eng.content(f, st),
              *[eng.content(a, st) for a in args])


def user_call(eng, f, args, kwargs, st, node):
    e = eng.event('usercall', st, node, fun=f, args=args, kwargs=kwargs,
                  contents=[eng.content(a, st) for a in args])
    eng.snap(e, st)
    eng.may_raise(st, node, 'user')
    if st.dead:
        return mk('undef')
    t = mk('uret', callkey(eng, node),
           tup(*[eng.content(a, st) for a in args]))
    if e is not None:
        e.data['result'] = t
    # the callee may overwrite every array it can reach
    for a in args:
        o = eng.obj(a, st)
        if o is not None and o.kind in ('arr', 'view') and not user_owned(
                eng, a, st):
            eng.write_arr(a, mk('call', 'clobbered', eng.content(a, st), t),
                          st, node)
    if eng.config.get('adversary'):
        # ... those of the caller and those it returned before included
        for oid, o in list(st.heap.items()):
            if o.kind == 'arr' and o.meta.get('user') and oid not in (
                    ('in', 'hess0'),):
                st.set(oid, 'c', mk('call', 'clobbered', o.f['c'], t))
    return t


EXTRANK['clobbered'] = lambda c, *r: rank(c)


def user_owned(eng, v, st):
    o = eng.obj(v, st)
    n = 0
    while o is not None and o.kind == 'view' and n < 20:
        o = eng.obj(o.f['base'], st)
        n += 1
    return o is not None and bool(o.meta.get('user'))


def uret_items(eng, t, k, st):
    """Items of the tuple returned by the user function."""
    ranks = {3: (0, 1, 2), 2: (0, 1)}.get(k, (None,) * k)
    if k == 2 and eng.config.get('resfun'):
        ranks = (1, 2)
    out = []
    kinds = eng.config.get('uret', {})
    if kinds:
        ranks = tuple(kinds.get(i, x) for i, x in enumerate(ranks))
    for i in range(k):
        if ranks[i] == 'float':
            out.append(sym(f'uret_float{i}', rank=0, notnone=True, pytypes=(
                'float', 'Real', 'Number', 'Complex', 'object')))
            continue
        c = mk('call', 'uitem', t, num(i), num(
            -1 if ranks[i] is None else ranks[i]))
        if ranks[i] == 0:
            out.append(c)
            continue
        oid = ('user', t, i)
        if oid not in st.heap:
            from .interp import Obj

            st.heap[oid] = Obj('arr', f={'c': c}, label='user%d' % i,
                               meta={'user': True})
        out.append(mk('ref', oid))
    return out


def method_of_value(eng, v, name, args, kwargs, st, node):
    c = v
    r = rank(v)
    if name == 'is_integer':
        return bt(atom(mk('call', 'is_integer', c)))
    if v.op == 'call' and v.args[0] in ('range',) and name == 'copy':
        return v
    arrlike = r is not None and (r > 0 or name in (
        'copy', 'dot', 'item', 'all', 'any', 'sum', 'min', 'max', 'astype',
        'conj', 'real'))
    if arrlike:
        if r == 0:
            if name in ('copy', 'item', 'sum', 'min', 'max', 'astype',
                        'conj'):
                return v
            if name in ('all', 'any'):
                return bt(tob_ew(v))
            if name == 'dot':
                return eng.wrap(st, mul(v, eng.content(args[0], st)))
        w = eng.alloc(st, 'arr', f={'c': v}, label='tmp')
        return arr_method(eng, w, name, args, kwargs, st, node)
    root = v
    e = eng.event('extcall', st, node, name='method:' + name, recv=v,
                  args=args, kwargs=kwargs)
    eng.may_raise(st, node, name)
    if st.dead:
        return mk('undef')
    if name == 'copy':
        return eng.alloc(st, 'arr', f={'c': c}, label='copy') if v.op in (
            'sym', 'mu', 'uret') else c
    if v.op in ('getitem', 'iter', 'sym', 'cases', 'dictget') and \
            name in ('dot', 'sum', 'T'):
        return eng.wrap(st, PURE['dot'](v, eng.content(args[0], st)))
    return mk('call', 'm.' + name, c, *[eng.content(a, st) for a in args],
              *[mk('kw', k, eng.content(x, st)) for k, x in sorted(
                  kwargs.items())])
