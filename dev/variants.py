#!/usr/bin/env python3
"""Development aid: run checks on behaviour-preserving edits (variants/*.py:
EDITS = [(file, old, new)], optional CHECKS) or on mutants given the same
way.  Usage: variants.py [-t] [-c C01,C02] NAME...   (-t: run the tests)"""
import glob, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
args = sys.argv[1:]
tests = '-t' in args
args = [a for a in args if a != '-t']
checks = None
if '-c' in args:
    i = args.index('-c')
    checks = args[i + 1].split(',')
    del args[i:i + 2]
sys.path.insert(0, os.path.dirname(HERE))
if checks is None:
    from sa import registry
    checks = list(registry.CHECKS)
files = []
for a in args or ['*']:
    files += sorted(glob.glob(os.path.join(HERE, 'variants', a + '.py')))


def build(f):
    d = runpy.run_path(f)
    t = tempfile.mkdtemp(prefix='var_', dir='/tmp')
    shutil.copytree('/repo', t + '/r', symlinks=True)
    for p, old, new in d['EDITS']:
        q = f'{t}/r/{p}'
        s = open(q).read()
        assert s.count(old) >= 1, (f, p, old)
        open(q, 'w').write(s.replace(old, new, 1 if s.count(old) == 1 or not
                                     d.get('ALL') else -1))
    return t


def check(job):
    f, t, c = job
    p = subprocess.run(['python3', HERE + '/../check.py', c, '--show',
                        f'--repo={t}/r'], capture_output=True, text=True)
    return f, c, p.returncode, p.stdout + p.stderr


dirs = {f: build(f) for f in files}
if tests:
    for f, t in dirs.items():
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x',
                            '-n', '8', 'tests'], cwd=t + '/r',
                           capture_output=True, text=True)
        print(os.path.basename(f), p.stdout.strip().split('\n')[-1])
jobs = [(f, t, c) for f, t in dirs.items() for c in checks]
bad = 0
with ThreadPoolExecutor(8) as ex:
    for f, c, rc, out in ex.map(check, jobs):
        if rc:
            bad += 1
            n = os.path.basename(f)[:-3]
            open(f'/tmp/v_{n}_{c}', 'w').write(out)
            lines = [l for l in out.split('\n') if l.startswith('- ')
                     or 'Error' in l]
            print(f'{n} {c} rc={rc}: ' + '; '.join(dict.fromkeys(
                l[:110] for l in lines))[:400])
for t in dirs.values():
    shutil.rmtree(t)
print(len(jobs), 'runs,', bad, 'not quiet')
