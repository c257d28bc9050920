"""C01: the memory backend is a hierarchical file system with links.

Breadth-first search of the reference model; every transition (state x
operation, accepted or refused) is executed on the real backend, which is
brought to the state by replaying the shortest history, and compared by outcome
and by complete observation.
"""
from .. import fsdrive as fd
from .. import refmodel as rm
from ..common import require

A, B = ('a',), ('b',)
AA, AB, BA = ('a', 'a'), ('a', 'b'), ('b', 'a')
AAA, BAB = ('a', 'a', 'a'), ('b', 'a', 'b')

BOUNDS = {
    'quick': 'model states within 3 operations over the names a, b (depth 2-3) x every operation of the alphabet, '
             'and pairs of successive operations without observation in between',
    'thorough': 'model states within 4 operations x every operation; all triples of successive operations',
}
ASSUMPTIONS = ['link targets are absolute memory paths', 'names contain no "/" and are not "." or ".."',
               'operations walking through a cycle of directory links are outside the property']

STATES = []


def alphabet(paths, deep, contents=(b'1', b'22')):
    ops = []
    for p in paths:
        ops.append(('mkdir', p))
        ops.append(('write', p, contents[0]))
        ops.append(('append', p, contents[1]))
        ops.append(('remove', p))
        ops.append(('rmr', p))
    for p in deep:
        ops.append(('makedirs', p))
    return ops


def build_ops(tier):
    paths = [A, B, AA, AB, BA]
    ops = alphabet(paths, paths + [AAA])
    for t in (A, B, AA, BA, ('c',)):
        for l in (A, B, AA, BA):
            ops.append(('symlink', t, l))
    for s in (A, B, AA, BA):
        for d in (A, B, AA, BA, ()):
            ops.append(('copy', s, d, True))
            ops.append(('copy', s, d, False))
            ops.append(('copytree', s, d, True))
            ops.append(('copytree', s, d, False))
            ops.append(('move', s, d))
    ops.append(('setexec', A, 0o111))
    ops.append(('setexec', AA, 0o100))
    return ops


OPS = None
SHORT = None


def prepare(tier):
    global STATES, OPS, SHORT
    OPS = build_ops(tier)
    SHORT = [o for o in OPS if o[0] not in ('copy', 'copytree', 'append')]
    grow = [o for o in OPS if o[0] in ('mkdir', 'write', 'symlink', 'remove', 'rmr', 'move', 'setexec', 'makedirs')]
    STATES = fd.bfs({}, grow, 4 if tier == 'thorough' else 3, maxnodes=5)


def cases(ctx):
    for i, (hist, st) in enumerate(STATES):
        yield ('state', i)
    # hidden state: what one operation leaves behind that no query shows
    for i, (hist, st) in enumerate(STATES):
        if len(hist) <= (2 if ctx.thorough else 1):
            for j in range(len(OPS)):
                yield ('pairs', i, j)


PROBES = [(), A, B, AA, AB, BA, AAA, BAB, ('c',), ('a', 'c'), ('b', 'a', 'a')]


def run(ctx, case):
    hist, st = STATES[case[1]]
    if case[0] == 'state':
        d = fd.memory_drive()
        fd.replay(d, hist)
        fd.same_state(d, st, 'the history', hist)
        fd.probe(d, st, PROBES, hist)
        ctx.see('states', rm.canon(st))
        ctx.count('traces')
        for op in OPS:
            check_step(ctx, d, hist, st, op)
    else:
        op = OPS[case[2]]
        s1 = dict(st)
        try:
            r = fd.model_apply(s1, op)
        except rm.Cyclic:
            return
        if r[0] != 'ok' and op[0] == 'copytree':
            return
        for op2 in (OPS if ctx.thorough or not hist else SHORT):
            s2 = dict(s1)
            try:
                r2 = fd.model_apply(s2, op2)
            except rm.Cyclic:
                continue
            d = fd.memory_drive()
            fd.replay(d, hist)
            fd.same_outcome(d, op, d.apply(op), r, hist)
            fd.same_outcome(d, op2, d.apply(op2), r2, hist + (op,))
            ctx.count('transitions')
            ctx.count('traces')
            if r2[0] == 'no' and op2[0] == 'copytree':
                continue
            fd.same_state(d, s2, fd.show(op2), hist + (op,))


def check_step(ctx, d0, hist, st, op):
    s2 = dict(st)
    try:
        r = fd.model_apply(s2, op)
    except rm.Cyclic:
        ctx.count('outside')
        return
    d = fd.memory_drive()
    fd.replay(d, hist)
    got = d.apply(op)
    fd.same_outcome(d, op, got, r, hist)
    ctx.count('transitions')
    ctx.count('accepted' if r[0] == 'ok' else 'refused')
    ctx.see('outcomes', (op[0], r[0], r[1] if r[0] == 'no' else None))
    if r[0] == 'no' and op[0] == 'copytree':
        # a tree copy that fails on its way may leave part of it at the target
        return
    fd.same_state(d, s2, fd.show(op), hist)
    ctx.sample({'history': fd.show_hist(hist), 'operation': fd.show(op), 'outcome': r[0]})
