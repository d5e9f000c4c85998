"""Writes DESIGN.md from design_head.md, properties.jsonl, the registry, the
list of repairs and the planted changes."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import registry  # noqa: E402
from mkmanifest import NA  # noqa: E402


def rd(name):
    with open(os.path.join(HERE, name)) as f:
        return f.read()


def main():
    out = [rd('dev/design_head.md')]
    props = [json.loads(x) for x in rd('properties.jsonl').splitlines()]
    out.append('## Properties and how each is decided\n')
    for p in props:
        c = registry.CHECKS.get(p['id'])
        out.append(f"### {p['id']} {p['title']}\n")
        if c is None:
            out.append(f"Not applicable: {NA[p['id']]}.\n")
            continue
        out.append(f"{c.note}\n")
        out.append(f"*Method:* {c.technique}. "
                   f"*Functions:* `{', '.join(c.names)}` in `sa/checks/`.\n")
        out.append(f"*Why tests cannot:* {p['why_tests_cant']}\n")
    fixes = [x[len('fixed: '):] for x in rd('known_findings.txt').splitlines()
             if x.startswith('fixed: ')]
    out.append(rd('dev/design_tail.md').replace('FIXES\n', ''.join(
        '* {0} (`{1}`) {2}\n'.format(
            x.split()[0].split('=')[1], x.split()[1], ' '.join(x.split()[2:]))
        for x in fixes) + '\n'))
    out.append('## Planted changes and what catches them\n')
    out.append('`seeded/<id>/` holds each change with its demonstration. '
               'The last column lists the checks that report it (checks that '
               'were run: all of them).\n')
    out.append('| change | property | needs | caught by |\n|---|---|---|---|')
    res = {}
    try:
        for line in rd('dev/catches.txt').splitlines():
            k, _, v = line.partition(' ')
            res[k] = v.strip()
    except OSError:
        pass
    d = os.path.join(HERE, 'seeded')
    for n in sorted(os.listdir(d)):
        m = json.loads(rd(f'seeded/{n}/meta.json'))
        out.append(f"| {n} | {m['property']} | {m['needs']} | "
                   f"{res.get(n, '') or 'not caught'} |")
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


main()
