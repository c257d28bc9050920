"""DESIGN.md out of design/*.md, the catalog and the check modules: python3 tools/design.py"""
import importlib
import json
import os
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [TOP, os.path.join(TOP, 'tools'), '/repo']
sys.dont_write_bytecode = True
import warnings         # noqa: E402
warnings.simplefilter('ignore')
from catalog import P   # noqa: E402


def read(name):
    with open(os.path.join(TOP, 'design', name)) as f:
        return f.read()


def main():
    decide = {}
    for line in read('decide.md').splitlines():
        if line.startswith('@'):
            key = line[1:].strip()
            decide[key] = []
        elif line.strip():
            decide[key].append(line.strip())
    costs = json.loads(read('costs.json'))
    out = [read('head.md').rstrip(), '', '## The properties', '',
           'Each one is decided by model checking; none is listed as not applicable. "Cost" is wall time on 8 cores.', '']
    for p in P:
        m = importlib.import_module('mc.props.' + p['id'].lower())
        q, t = costs.get(p['id'], ['?', '?'])
        out += ['### %s: %s' % (p['id'], p['title']), '', p['statement'], '',
                '- technique: %s' % p['technique'],
                '- how it is decided: %s' % ' '.join(decide[p['id']]),
                '- explored (quick): %s' % ' '.join(m.BOUNDS['quick'].split()),
                '- explored (thorough): %s' % ' '.join(m.BOUNDS['thorough'].split()),
                '- assumptions: %s' % ('; '.join(m.ASSUMPTIONS) or 'none'),
                '- cost: %s quick, %s thorough' % (q, t),
                '- why tests do not reach it: %s' % p['why'], '']
    out += [read('fixes.md').rstrip(), '', read('seeded.md').rstrip(), '', '| change | breaks | caught by | missed by |', '|---|---|---|---|']
    for line in sorted(read('detected.txt').splitlines()):
        if line.strip():
            name, caught, missed = (x.strip() for x in line.split('|'))
            with open(os.path.join(TOP, 'seeded', name, 'meta.json')) as f:
                meta = json.load(f)
            out.append('| %s (%s) | %s | %s | %s |' % (name, meta['property'], meta['what_it_breaks'].replace('|', '/').replace('\n', ' '), caught, missed or '-'))
    out += ['', read('tail.md').rstrip(), '']
    with open(os.path.join(TOP, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
