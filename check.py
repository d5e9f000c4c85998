#!/usr/bin/env python3
"""Static checks of fides: ./check.py <property id> [--repo DIR] [--show]."""

import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B', '-X', 'utf8']
             + sys.argv)

import json
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading

threading.stack_size(512 * 1024 * 1024)


def load_known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = json.loads(line[len('finding:'):])
                out.setdefault(d['property'], {})[d['key']] = d['what']
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    repo = os.environ.get('FIDES_REPO', '/repo')
    for a in sys.argv[1:]:
        if a.startswith('--repo='):
            repo = a[7:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    from sa import registry
    from sa.checks.base import Ctx

    t0 = time.time()
    ctx = Ctx(prop, tier, repo)
    spec = registry.CHECKS[prop]
    err = None
    try:
        for fn in spec.funcs():
            fn(ctx)
    except Exception as e:  # no verdict
        err = e
        traceback.print_exc()
    known = load_known().get(prop, {})
    bad = []
    for b in ctx.bad:
        if b['key'] in known:
            print(f'KNOWN-FINDING: property={prop} {known[b["key"]]}')
        else:
            bad.append(b)
    wall = time.time() - t0
    n, d = len(ctx.obs), sum(1 for o in ctx.obs if o[2])
    rules = {}
    for rule, where, ok in ctx.obs:
        x = rules.setdefault(rule, {'obligations': 0, 'discharged': 0})
        x['obligations'] += 1
        x['discharged'] += ok
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough')
        else 'quick',
        'seed': int(os.environ.get('VERIF_SEED') or 1),
        'level': spec.level,
        'coverage': {
            'explanation': spec.note,
            'obligations': n, 'discharged': d,
            'rules': rules, 'analysed': ctx.stats,
            'where': sorted({w for _, w, _ in ctx.obs})[:400],
            'checker_cmd': f'python3 check.py {prop}',
            'trusted_base': registry.TRUSTED,
        },
        'assumptions': registry.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(bad),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {d} of {n} obligations hold '
          f'({", ".join(f"{k} {v}" for k, v in ctx.stats.items())}) '
          f'in {wall:.1f} s')
    if bad:
        p = os.path.join(HERE, 'evidence', prop + '.violation.txt')
        with open(p, 'w') as f:
            for b in bad:
                f.write(f'rule: {b["rule"]}\nwhere: {b["where"]}\n'
                        f'{b["detail"]}\n\n')
        for b in bad[:12 if '--show' in sys.argv else 4]:
            print(f'- {b["rule"]}\n  at {b["where"]}\n  '
                  + b['detail'][:700 if '--show' not in sys.argv else 3000]
                  .replace('\n', '\n  '))
        print(f'VIOLATION property={prop} replay={p}')
        os._exit(flush(1))
    if err is not None or n == 0:
        print(f'{prop}: analysis gave no verdict: {err}')
        os._exit(flush(2))
    os._exit(flush(0))


def flush(c):
    sys.stdout.flush()
    sys.stderr.flush()
    return c


t = threading.Thread(target=main)
t.start()
t.join()
os._exit(3)
