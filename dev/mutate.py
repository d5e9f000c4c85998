#!/usr/bin/env python3
"""Development aid: systematic mutants of the package.
mutate.py list [FILE]          number and describe them
mutate.py run OUT [FILE|N,..]  run all checks on each, until one reports it
The survivors then have to be inspected (many are equivalent)."""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
FILES = ['minimize', 'steps', 'stepback', 'trust_region', 'subproblem',
         'hessian_approximation', 'constants', 'logging']
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE],
       ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
       ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.Mod: [ast.Mult]}
NAMES = {'lb': 'ub', 'ub': 'lb', 'funout_new': 'funout', 'funout':
         'funout_new', 's': 'y', 'y': 's', 'u': 'v', 'fval': 'fval0',
         'theta': 'delta', 'xa': 'xb', 'zp': 'z', 'rp': 'r', 'sg': 'x'}
ATTRS = {'s': 'ss', 'ss': 's', 's0': 'ss0', 'ss0': 's0', 'og_s': 's',
         'og_ss': 'ss', 'og_sc': 'sc', 'lb': 'ub', 'ub': 'lb', 'MU': 'ETA',
         'ETA': 'MU', 'GAMMA1': 'GAMMA2', 'GAMMA2': 'GAMMA1', 'FATOL':
         'FRTOL', 'FRTOL': 'FATOL', 'GATOL': 'GRTOL', 'GRTOL': 'GATOL',
         'delta': 'delta_iter', 'delta_iter': 'delta', 'x': 'x_min',
         'fval': 'fval_min', 'grad': 'grad_min', 'res': 'sres',
         'minbr': 'alpha', 'alpha': 'minbr', 'shess': 'chess', 'sg': 'cg',
         'A': '_hess', 'theta': 'alpha', 'MAXITER': 'MAXTIME',
         'REFLECT': 'TRUNCATE', 'hess': 'grad', 'iteration':
         'iterations_since_tr_update', 'ss_': ''}
CALLS = {'min': 'max', 'max': 'min', 'nanmin': 'min', 'nanmax': 'max',
         'argmin': 'argmax', 'any': 'all', 'all': 'any', 'zeros': 'ones',
         'ones': 'zeros', 'zeros_like': 'ones_like', 'isfinite': 'isreal',
         'append': 'count', 'extend': 'append', 'vstack': 'hstack',
         'nan': 'inf', 'eig': 'eigh', 'asarray': 'array'}
DROP = {'abs', 'sqrt', 'real', 'sign', 'copy', 'norm', 'asarray', 'array'}
EXC = {'ValueError': 'TypeError', 'TypeError': 'ValueError',
       'RuntimeError': 'ValueError', 'NotImplementedError': 'ValueError'}


def walk(node, path=()):
    """(node, path of fields) without messages, annotations, docstrings."""
    yield node, path
    for f, v in ast.iter_fields(node):
        if f in ('annotation', 'returns', 'decorator_list', 'ctx', 'type_params'):
            continue
        vs = v if isinstance(v, list) else [v]
        for i, c in enumerate(vs):
            if not isinstance(c, ast.AST) or isinstance(c, ast.JoinedStr):
                continue
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if isinstance(c, ast.Call) and 'logger.' in ast.unparse(c.func):
                continue
            if isinstance(c, ast.Call) and ast.unparse(c.func) in (
                    'warnings.warn',):
                continue
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                continue
            yield from walk(c, path + ((f, i if isinstance(v, list)
                                        else None),))


def variants(n):
    """Mutated copies of one node."""
    out = []

    def new(**kw):
        m = copy.deepcopy(n)
        for k, v in kw.items():
            setattr(m, k, v)
        out.append(m)
        return m

    if isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for t in CMP.get(type(o), []):
                new(ops=n.ops[:i] + [t()] + n.ops[i + 1:])
    elif isinstance(n, ast.BoolOp):
        new(op=ast.Or() if isinstance(n.op, ast.And) else ast.And())
        for i in range(len(n.values)):
            r = n.values[:i] + n.values[i + 1:]
            out.append(r[0] if len(r) == 1 else ast.BoolOp(n.op, r))
    elif isinstance(n, ast.BinOp):
        for t in BIN.get(type(n.op), []):
            new(op=t())
        out.append(n.left)
        out.append(n.right)
    elif isinstance(n, ast.UnaryOp):
        out.append(n.operand)
    elif isinstance(n, ast.AugAssign):
        for t in BIN.get(type(n.op), []):
            new(op=t())
        out.append(ast.Assign([n.target], n.value, lineno=1))
        out.append(ast.Pass())
    elif isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            new(value=not v)
        elif isinstance(v, (int, float)):
            new(value=v + 1)
            if v:
                new(value=0)
                new(value=v * 2)
        elif isinstance(v, str) and len(v) < 12:
            new(value=v + '_')
        elif v is None:
            new(value=0)
    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        if n.id in NAMES:
            new(id=NAMES[n.id])
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        if n.attr in ATTRS:
            new(attr=ATTRS[n.attr])
        if n.attr == 'T':
            out.append(n.value)
        if n.attr in CALLS:
            new(attr=CALLS[n.attr])
    elif isinstance(n, ast.Call):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(
            f, ast.Name) else ''
        if isinstance(f, ast.Name) and nm in CALLS:
            new(func=ast.Name(CALLS[nm], ast.Load()))
        if isinstance(f, ast.Name) and nm in EXC:
            new(func=ast.Name(EXC[nm], ast.Load()))
        if nm in DROP:
            if n.args:
                out.append(n.args[0])
            elif isinstance(f, ast.Attribute) and nm == 'copy':
                out.append(f.value)
        if len(n.args) >= 2 and nm not in ('isinstance',):
            for i in range(len(n.args) - 1):
                a = list(n.args)
                a[i], a[i + 1] = a[i + 1], a[i]
                new(args=a)
        if isinstance(f, ast.Attribute) and nm == 'dot' and n.args:
            new(func=ast.Attribute(n.args[0], 'dot', ast.Load()),
                args=[f.value])
        if nm == 'range':
            new(args=[ast.BinOp(n.args[-1], ast.Add(), ast.Constant(1))])
        for i, k in enumerate(n.keywords):
            if nm not in ('NonlinearConstraint', 'LinearConstraint'):
                new(keywords=n.keywords[:i] + n.keywords[i + 1:])
    elif isinstance(n, ast.If):
        new(test=ast.Constant(True))
        new(test=ast.Constant(False))
        new(test=ast.UnaryOp(ast.Not(), n.test))
    elif isinstance(n, ast.IfExp):
        out.append(n.body)
        out.append(n.orelse)
    elif isinstance(n, ast.While):
        new(test=ast.Constant(True))
    elif isinstance(n, (ast.Assign, ast.AnnAssign)):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
        out.append(ast.Pass())
        if isinstance(n, ast.Assign) and isinstance(ts[0], ast.Tuple) and \
                isinstance(n.value, ast.Tuple) and len(ts[0].elts) == 2:
            new(value=ast.Tuple(n.value.elts[::-1], ast.Load()))
    elif isinstance(n, ast.Expr):
        out.append(ast.Pass())
    elif isinstance(n, ast.Raise):
        out.append(ast.Pass())
    elif isinstance(n, ast.Break):
        out.append(ast.Continue())
    elif isinstance(n, ast.Continue):
        out.append(ast.Break())
    elif isinstance(n, ast.Return):
        if n.value is not None:
            out.append(ast.Pass())
        if isinstance(n.value, ast.Tuple) and len(n.value.elts) > 1:
            new(value=ast.Tuple(n.value.elts[1::-1] + n.value.elts[2:],
                                ast.Load()))
    elif isinstance(n, ast.ExceptHandler) and n.type is not None:
        new(type=ast.Name('KeyboardInterrupt', ast.Load()))
    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
        if not isinstance(n.slice, (ast.Constant, ast.Tuple)) :
            out.append(n.value)
    return out


def replace(tree, path, new):
    t = copy.deepcopy(tree)
    n = t
    for f, i in path[:-1]:
        n = getattr(n, f) if i is None else getattr(n, f)[i]
    f, i = path[-1]
    if i is None:
        setattr(n, f, new)
    else:
        getattr(n, f)[i] = new
    return ast.unparse(ast.fix_missing_locations(t))


def mutants(only=None):
    k = 0
    for fn in FILES:
        if only and fn != only:
            continue
        src = open(f'/repo/fides/{fn}.py').read()
        tree = ast.parse(src)
        seen = {ast.unparse(tree)}
        for n, path in walk(tree):
            if not path:
                continue
            for m in variants(n):
                try:
                    s = replace(tree, path, m)
                    compile(s, fn, 'exec')
                except Exception:
                    continue
                if s in seen:
                    continue
                seen.add(s)
                a = ast.unparse(n).replace('\n', ' ')[:90]
                b = ast.unparse(ast.fix_missing_locations(m)).replace(
                    '\n', ' ')[:90]
                yield f'{fn}:{k}', getattr(n, 'lineno', 0), a, b, fn, s
                k += 1


def go(m):
    name, line, a, b, fn, s = m
    t = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    shutil.copytree('/repo/fides', t + '/fides')
    open(f'{t}/fides/{fn}.py', 'w').write(s)
    try:
        p = subprocess.run(
            ['nice', '-n', '10', sys.executable, HERE + '/all.py', '--one', t,
             'mut_' + name.replace(':', '_'), ORDER[fn]], capture_output=True,
            text=True, timeout=1500, env={**os.environ, 'FIRST': '1'})
        o = p.stdout.strip().splitlines()
        r = o[0].split(' ', 1)[1][:120] if o else 'NO OUTPUT ' + p.stderr[-200:]
    except subprocess.TimeoutExpired:
        r = 'TIMEOUT'
    finally:
        shutil.rmtree(t)
    if 'done in' in r:
        # survivor of the checks: do the tests notice?
        t = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
        subprocess.run(['cp', '-a', '/repo', t + '/r'])
        open(f'{t}/r/fides/{fn}.py', 'w').write(s)
        try:
            p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q',
                                '-x', '-n', '2', 'tests'], cwd=t + '/r',
                               capture_output=True, text=True, timeout=400)
            r = 'SURVIVED ' + p.stdout.strip().splitlines()[-1]
        except subprocess.TimeoutExpired:
            r = 'SURVIVED tests time out'
        shutil.rmtree(t)
    return f'{name} L{line}: {a}  =>  {b}  || {r}'


LOOPC = 'C05,C06,C04,C07,C09,C10,C12,C16,C01,C08,C03,C22,C24,C25,C30,C31,C32'
REST = ['C%02d' % i for i in range(1, 33)]


def order(first):
    f = first.split(',')
    return ','.join(f + [c for c in REST if c not in f])


ORDER = {'minimize': order(LOOPC),
         'steps': order('C02,C14,C13,C15,C11'),
         'stepback': order('C13,C11,C14'), 'trust_region': order('C13,C14'),
         'subproblem': order('C15,C11,C14'),
         'hessian_approximation': order('C19,C17,C20,C21,C18,C22,C27,C26,C25'),
         'constants': order('C23,C24'), 'logging': order('C29')}

if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for m in mutants(sys.argv[2] if len(sys.argv) > 2 else None):
            print(m[0], 'L%d' % m[1], m[2], ' => ', m[3])
    else:
        sel = sys.argv[3] if len(sys.argv) > 3 else None
        ms = list(mutants(sel if sel in FILES else None))
        if sel and sel not in FILES:
            ms = [m for m in ms if m[0] in sel.split(',')]
        with ThreadPoolExecutor(int(os.environ.get('J', 8))) as ex, open(
                sys.argv[2], 'a') as f:
            for r in ex.map(go, ms):
                print(r, file=f, flush=True)
