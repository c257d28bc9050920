"""check.py <property> [--tier quick|thorough] [--replay FILE]

Runs the check of one property against the working tree of /repo, writes
evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import argparse
import importlib
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import common  # noqa: E402

VERIF = common.VERIF


def known_findings(pid):
    """lines 'finding: property=<id> match=<text> :: <what fails>'"""
    out = []
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                if line.startswith('finding: property=%s ' % pid):
                    head, _, what = line.strip().partition(' :: ')
                    out.append((head.partition(' match=')[2], what))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    pid = a.property
    prop = importlib.import_module('mc.props.%s' % pid.lower())
    if a.replay:
        return replay(prop, a, seed)
    t0 = time.time()
    counts, sets, samples, vios, errors = common.explore(prop, a.tier, seed)
    wall = time.time() - t0
    for e in errors:
        vios.append((-1, {'case': None, 'what': 'the code under test took the checking process down: %s' % e,
                          'detail': {}}))
    known = known_findings(pid)
    reported, hits = [], {}
    for i, v in vios:
        text = v['what'] + ' ' + json.dumps(common.jsonable(v['case'])) + json.dumps(v['detail'])
        for match, what in known:
            if match and match in text:
                hits[what] = hits.get(what, 0) + 1
                break
        else:
            reported.append((i, v))
    level = getattr(prop, 'LEVEL', 'model_checking')
    n = {k: v for k, v in counts.items()}
    n.update({k: len(v) for k, v in sets.items()})
    cov = {}
    if level == 'model_checking':
        cov['states'] = n.get('states', 0)
        cov['transitions'] = n.get('transitions', 0)
        cov['traces_validated_against_impl'] = n.get('traces', 0)
    else:
        cov['evaluations'] = n.get('evaluations', n.get('cases', 0))
        cov['distinct_nontrivial'] = n.get('distinct', 0)
        cov['rule'] = prop.RULE
    cov['samples'] = samples[:6] or ['none']
    cov['bounds'] = prop.BOUNDS[a.tier] if isinstance(getattr(prop, 'BOUNDS', None), dict) else getattr(prop, 'BOUNDS', '')
    cov['exhaustive'] = not counts.get('stopped_early') and not counts.get('capped')
    cov['counts'] = n
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': level,
        'coverage': common.jsonable(cov),
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: %s; %.1fs' % (pid, a.tier, ', '.join('%s=%s' % kv for kv in sorted(n.items())), wall))
    for what, k in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if not n.get('cases'):
        print('nothing was explored: the check is broken')
        for e in errors:
            print(e)
        return 2
    if reported:
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        i, v = reported[0]
        path = os.path.join(VERIF, 'out', '%s-%s.json' % (pid, i if i >= 0 else 'crash'))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': a.tier, 'index': i, 'case': common.jsonable(v['case']),
                       'what': v['what'], 'detail': v['detail'],
                       'others': [x['what'] for _, x in reported[1:10]]}, f, indent=1)
            f.write('\n')
        print('  ' + v['what'])
        for k, d in v['detail'].items():
            print('  %s: %s' % (k, json.dumps(d)[:600] if not isinstance(d, str) else d[-600:]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def replay(prop, a, seed):
    """run the one case of a replay file again, found by its index"""
    with open(a.replay) as f:
        rec = json.load(f)
    idx = rec['index']

    class One(object):
        WORKERS = 1

        def __getattr__(self, name):
            return getattr(prop, name)

        def cases(self, ctx):
            for i, c in enumerate(prop.cases(ctx)):
                if i == idx:
                    yield c
                    return
    one = One()
    if not hasattr(prop, 'MEM_LIMIT'):
        one.MEM_LIMIT = 3 << 30
    counts, sets, samples, vios, errors = common.explore(one, rec['tier'], seed)
    for _, v in vios:
        print('case:', json.dumps(common.jsonable(v['case']))[:1000])
        print(v['what'])
        print(json.dumps(v['detail'], indent=1)[:4000])
    for e in errors:
        print(e)
    print('reproduced' if vios or errors else 'not reproduced')
    return 1 if vios or errors else 0


if __name__ == '__main__':
    sys.exit(main())
