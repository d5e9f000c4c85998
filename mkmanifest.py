"""Writes MANIFEST.json from properties.jsonl and sa/registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import registry  # noqa: E402

NA = {
    'C40': 'global convergence is a limit statement over all smooth '
           'objectives in real arithmetic; no static argument in reach '
           'decides it (its ingredients are C04, C12, C13, C14, C16)',
    'C41': 'optimality up to rounding depends on eigenvalue numerics and '
           'root finding; the decidable parts (length, guard of the interior '
           'solution) are C15',
    'C42': 'whether rounding moves alpha*s beyond a bound, or produces NaN, '
           'depends on floating point values; the structural step back is '
           'C02 and the gate on adoption C01',
    'C43': 'a rounding error analysis of rank two updates is out of reach of '
           'a static analysis of the source; the exact arithmetic parts are '
           'C17 to C19',
    'C44': 'depends on the wall clock time of user code; which test is made, '
           'and when, is C10',
    'C45': 'depends on what h5py and HDF5 write to disk and when',
}
PENDING = 'no check has been built for it yet'
NOTE = ('Every obligation is decided on terms and path conditions of the '
        'current source; sound for the modelled part: real arithmetic (NaN '
        'kept track of), numpy/scipy/h5py behave as modelled in sa/ext.py, '
        'options are not changed during a run. Trusts the CPython parser '
        'and the interpreter in sa/.')


def main():
    props = [json.loads(x) for x in open(os.path.join(
        HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        c = registry.CHECKS.get(i)
        if c is None:
            na.append({'property': i, 'reason': NA.get(i, PENDING)})
            continue
        checks.append({
            'property': i,
            'quick_cmd': f'python3 check.py {i}',
            'thorough_cmd': f'python3 check.py {i} --thorough',
            'technique': c.technique,
            'level': c.level,
            'level_note': NOTE,
        })
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; '
         'assert sys.version_info >= (3, 10)"', 'checks': checks,
         'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
