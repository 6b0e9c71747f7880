#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (checks, repairs, planted bugs)."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + '/lib', ROOT + '/checks']
import check

reg = check.registry()
props = {p['id']: p for p in map(json.loads, open(ROOT + '/properties.jsonl'))}


def cases():
    out = ['| property | title | cases quick / thorough | builds used | must have been observed |', '|---|---|---|---|---|']
    for k, p in props.items():
        c = reg[k]
        out.append('| %s | %s | %d / %d | %s | %s |' % (k, p['title'], c.quick, c.thorough, ', '.join(c.variants), '; '.join(c.need)))
    return out


def fixed():
    out = ['| property | commit | what failed |', '|---|---|---|']
    for l in open(ROOT + '/known_findings.txt'):
        m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
        if m:
            out.append('| %s | %s | %s |' % m.groups())
    return out


def planted():
    rows = []
    for f in glob.glob(ROOT + '/seeded/*/meta.json'):
        m = json.load(open(f))
        rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
    out = ['%d planted bugs; every one is caught by the quick check of the property it is listed under, at seed 1.' % len(rows), '', '| caught by | bug | needs | effect |', '|---|---|---|---|']
    return out + ['| %s | %s | %s | %s |' % tuple(x.replace('|', '\\|') for x in r) for r in sorted(rows)]


t = open(ROOT + '/DESIGN.md').read()
for name, f in (('cases', cases), ('fixed', fixed), ('planted', planted)):
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m[1] + '\n' + '\n'.join(f()) + '\n\n' + m[2], t, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(t)
