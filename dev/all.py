#!/usr/bin/env python3
"""Development aid: all checks in one process (the analysed runs are shared)
on a behaviour-preserving edit or a mutant.  all.py VARIANT... or directories
of planted bugs (8 at a time);
with --one DIR NAME: on that copy of the repository."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if '--one' in sys.argv:
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
    import threading, time, traceback
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(20000)
    sys.path.insert(0, os.path.dirname(HERE))
    repo, name = sys.argv[2:4]
    only = sys.argv[4].split(',') if len(sys.argv) > 4 else None

    def main():
        from sa import registry
        from sa.checks.base import Ctx
        t0 = time.time()
        for p in only or registry.CHECKS:
            ctx = Ctx(p, 'quick', repo)
            err = None
            try:
                for fn in registry.CHECKS[p].funcs():
                    fn(ctx)
            except Exception:
                err = traceback.format_exc()
            if ctx.bad or err:
                with open(f'/tmp/v_{name}_{p}', 'w') as f:
                    for b in ctx.bad[:12]:
                        f.write(f"- {b['rule']}\n  at {b['where']}\n  "
                                f"{b['detail'][:3000]}\n")
                    f.write(err or '')
                print(name, p, 'ERROR ' + err.strip().splitlines()[-1]
                      if err else '', '; '.join(
                          dict.fromkeys(b['rule'] for b in ctx.bad))[:300],
                      flush=True)
                if os.environ.get('FIRST'):
                    os._exit(1)
        print(name, f'done in {time.time() - t0:.0f} s', flush=True)
        os._exit(0)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    os._exit(3)
import glob, runpy, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor


def go(f):
    n = os.path.basename(f).removesuffix('.py')
    t = tempfile.mkdtemp(prefix='var_', dir='/tmp')
    shutil.copytree('/repo/fides', t + '/fides')
    if os.path.isdir(f):
        subprocess.run(['patch', '-s', '-p1', '-d', t, '-i',
                        os.path.abspath(f) + '/patch.diff'], check=True)
    for p, old, new in [] if os.path.isdir(f) else runpy.run_path(f)['EDITS']:
        s = open(f'{t}/{p}').read()
        assert s.count(old) == 1, (f, p, old)
        open(f'{t}/{p}', 'w').write(s.replace(old, new))
    try:
        return subprocess.run([sys.executable, __file__, '--one', t, n], capture_output=True, text=True,
            timeout=3000).stdout
    except subprocess.TimeoutExpired:
        return n + ' timed out\n'
    finally:
        shutil.rmtree(t)


fs = []
for a in sys.argv[1:] or ['*']:
    fs += sorted(glob.glob(a)) if '/' in a else sorted(
        glob.glob(os.path.join(HERE, 'variants', a + '.py')))
with ThreadPoolExecutor(int(os.environ.get('J', 8))) as ex:
    for out in ex.map(go, fs):
        print(out, end='', flush=True)
