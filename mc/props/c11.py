"""C11: a copy or move that fails half-way loses nothing.

For each operation the primitive calls are counted in a run without faults,
then every single one is made to fail; where the operation goes on after a
fault, every later one is made to fail as well (pairs).  Backends: a plug-in
with primitives only (mini), alone and with memory on the other side; memory
with its primitives wrapped; local with the os functions wrapped.
"""
import builtins
import io
import os

from .. import fsdrive as fd
from .. import mixed
from .. import refmodel as rm
from .. import shapes
from ..common import load, require, Violated

LEVEL = 'fault_enumeration'
RULE = ('one case per operation x tree x backend pair x faulty step (or pair of steps); non-trivial when the injected fault was '
        'actually raised inside the operation')
BOUNDS = {
    'quick': '8 trees and all forests of 2 nodes x copy and move to 6 targets x 6 backend pairs x every faulty step, pairs where the operation survives the first, and an interruption and the end of the process at every step',
    'thorough': 'all forests of 3 nodes as well',
}
ASSUMPTIONS = ['a failed primitive has not done anything (commit-on-close for the plug-in backend)', 'os.stat-like queries of the local backend do not fail',
               'an existing file at the target may be lost half-written: it is being replaced']
TOP, OUT = ('S', 'top'), ('S', 'o')
PAIRS = ('ii', 'im', 'mi', 'mm', 'll', 'lm', 'ml')
TARGETS = (('D', 'new'), ('D',), ('D', 'p', 'q'), ('D', 'file'), ('D', 'lfile'), ('D', 'merge'))
CASES = []
RICH = [('f', ('d', ('f', ('d', ('x',)))), 'x'), (('d', (('d', ('f', 'f')),)), 'f', 'ld'), ('f',), ('x', 'lf', 'f'), (), (('d', ()),)]


def prepare(tier):
    CASES[:] = []
    fs = RICH + list(shapes.forests(2, ('f', 'ld', 'ls')))
    if tier == 'thorough':
        fs += list(shapes.forests(3, ('f', 'ld')))
    for pair in PAIRS:
        for f in (fs if tier == 'thorough' or pair in ('ii',) else RICH):
            for kind in ('copytree', 'move', 'copylinks'):
                for t in range(len(TARGETS)):
                    if tier == 'quick' and f not in RICH and t % 2:
                        continue
                    CASES.append((pair, f, kind, TARGETS[t], TOP))
        for kind in ('copy', 'move'):
            for t in range(len(TARGETS)):
                CASES.append((pair, ('f', 'x'), kind, TARGETS[t], TOP + ('b',)))
                CASES.append((pair, ('f', 'lf'), kind, TARGETS[t], TOP + ('b',)))


def cases(ctx):
    for i in range(len(CASES)):
        yield (i,)


# -- the injector

class Interrupted(BaseException):
    "the process ends here"


class Hook(object):
    at = frozenset()
    end = None
    n = 0
    armed = False
    log = None
    raised = 0
    error = OSError


def step(what):
    if not Hook.armed:
        return
    Hook.n += 1
    Hook.log.append(what)
    if Hook.end and Hook.n >= Hook.end:
        # nothing happens any more
        Hook.raised += 1
        raise Interrupted('interrupted at step %d: %s' % (Hook.end, what))
    if Hook.n in Hook.at:
        Hook.raised += 1
        raise Hook.error(5, 'injected failure of step %d: %s' % (Hook.n, what))


class FaultyFile(object):
    def __init__(self, f):
        self.f = f

    def read(self, *a):
        step('read')
        return self.f.read(*a)

    def readinto(self, *a):
        step('read')
        return self.f.readinto(*a)

    def write(self, *a):
        step('write')
        return self.f.write(*a)

    def close(self):
        try:
            step('close')
        finally:
            self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.f)

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def __getattr__(self, name):
        return getattr(self.f, name)


def wrap(obj, name, what, result=None):
    orig = getattr(obj, name)

    def wrapped(*a, **k):
        step(what)
        r = orig(*a, **k)
        return result(r) if result and Hook.armed else r
    wrapped.__name__ = name
    wrapped.__wrapped_by_mc__ = True
    setattr(obj, name, wrapped)


def setup(ctx):
    import shutil
    shutil.rmtree       # decides on fd functions at import, before they are wrapped
    ns = load()
    ns.plug.Controls.faults = step
    mem = ns.fs.SCHEME_REGISTRY['memory']
    conn = type(ns.REG.get_connection(*ns.URI('memory:///')._key()))
    for name in ('listdir', 'removefile', 'removedir', 'mkdir', 'exists', 'isfile', 'isdir', 'islink', 'readlink', 'symlink', 'copystat'):
        wrap(conn, name, 'memory ' + name)
    wrap(conn, 'open', 'memory open', FaultyFile)
    for name in ('mkdir', 'rmdir', 'unlink', 'rename', 'replace', 'symlink', 'listdir', 'scandir', 'chmod', 'utime', 'readlink', 'remove', 'link'):
        wrap(os, name, 'os.' + name)
    wrap(builtins, 'open', 'open', lambda f: FaultyFile(f))


class Pair(mixed.Mixed):
    def __init__(self, ctx, pair):
        ns = load()
        ns.REG.cleanup(force=True)
        self.pair = pair
        self.name = ' to '.join({'i': 'plug-in', 'm': 'memory', 'l': 'local'}[c] for c in pair)
        local = ctx.local_root() if 'l' in pair else None
        self.roots = {}
        for name, kind in zip('SD', pair):
            u = ns.URI({'i': 'mini:///', 'm': 'memory:///', 'l': local}[kind]) / name
            u.mkdir()
            self.roots[name] = u


def build(ctx, pair, forest):
    src = shapes.place(forest, TOP, OUT)
    extra = [(('D', 'file'), ('f', b'replaced', 0)), (('D', 'keep'), ('f', b'kept', 0)), (('D', 'lfile'), ('l', ('D', 'keep'))),
             (('D', 'merge'), ('d',)), (('D', 'merge', 'mine'), ('f', b'mine', 0))]
    nodes = shapes.outside(OUT) + src + extra
    d = Pair(ctx, pair)
    d.build(shapes.ops_for(nodes))
    st = dict(nodes)
    st[('S',)] = ('d',)
    st[('D',)] = ('d',)
    return d, st


def perform(d, kind, source, target):
    s, t = d.uri(source), d.uri(target)
    s.connection, t.connection
    if kind == 'move':
        s.move(t)
    elif kind == 'copy':
        s.copy(t)
    else:
        s.copy(t, recursive=True, followlinks=kind == 'copytree')


def run(ctx, case):
    pair, forest, kind, target, source = CASES[case[0]]
    same = pair[0] == pair[1]
    if kind == 'copylinks' and not same:
        return
    attempt(ctx, pair, forest, kind, source, target, (), None)


def attempt(ctx, pair, forest, kind, source, target, at, final):
    "run with faults at the given steps, then recurse with one more"
    Hook.armed = False
    d, st = build(ctx, pair, forest)
    Hook.at, Hook.n, Hook.log, Hook.raised = frozenset(at), 0, [], 0
    Hook.armed = True
    err = None
    try:
        perform(d, kind, source, target)
    except (Exception,) as e:
        err = e
    finally:
        Hook.armed = False
    n, log, raised = Hook.n, Hook.log, Hook.raised
    if n > 3000:
        raise Violated('%s: %s does not come to an end' % (d.name, kind))
    after = d.observe()
    ctx.count('evaluations')
    if at and raised < len(at):
        raise Violated('%s: the steps of %s are not deterministic' % (d.name, kind), steps=log)
    ctx.see('distinct', (pair, forest, kind, source, target, at))
    what = '%s: %s of %s to %s with a failure of %s' % (d.name, kind, fd.sp(source), fd.sp(target),
                                                       ' and '.join('step %d (%s)' % (k, log[k - 1]) for k in at) or 'nothing')
    if not at:
        final = after if err is None else None
        ctx.count('operations')
    if err is not None:
        require(isinstance(err, fd.refusals()), '%s raised %s: %s' % (what, type(err).__name__, err))
    if err is None:
        if after != final and at:
            diff = {fd.sp(p): [repr(after.get(p))[:80], repr(final.get(p))[:80]] for p in set(after) | set(final) if after.get(p) != final.get(p)}
            raise Violated(what + ' is not reported, but it is not complete', got_vs_expected=diff)
    else:
        check_nothing_lost(what, kind, st, after, source, target)
    if len(at) < 2:
        first = at[-1] if at else 0
        if at and (err is not None) and n <= first:
            return
        if at and n - first > 400:
            return
        for k in range(first + 1, n + 1):
            attempt(ctx, pair, forest, kind, source, target, at + (k,), final)
        if not at:
            for k in range(1, min(n, 400) + 1):
                interrupt(ctx, pair, forest, kind, source, target, k, False)
                interrupt(ctx, pair, forest, kind, source, target, k, True)
            ctx.sample({'operation': what, 'steps': log[:40]})


def interrupt(ctx, pair, forest, kind, source, target, k, once):
    "the operation ends at step k, and no clean-up does anything (or does, with once)"
    Hook.armed = False
    d, st = build(ctx, pair, forest)
    Hook.at, Hook.n, Hook.log, Hook.raised = frozenset(), 0, [], 0
    Hook.end = k
    if once:
        Hook.end = None
        Hook.at = {k}
    Hook.error = KeyboardInterrupt if once else OSError
    Hook.armed = True
    err = None
    try:
        perform(d, kind, source, target)
    except BaseException as e:
        err = e
    finally:
        Hook.armed = False
        Hook.end = None
        Hook.error = OSError
    what = '%s: %s of %s to %s, %s at step %d (%s)' % (d.name, kind, fd.sp(source), fd.sp(target), 'interrupted' if once else 'with the end of the process', k, Hook.log[k - 1])
    require(err is not None, what + ' is not reported')
    check_nothing_lost(what, kind, st, d.observe(), source, target)
    ctx.count('evaluations')
    ctx.see('distinct', (pair, forest, kind, source, target, 'once' if once else 'end', k))


def check_nothing_lost(what, kind, st, after, source, target):
    n = len(source)
    if rm.isdir(st, target):
        place = target + (source[-1],)
    else:
        place = target
    mine = {p: nd for p, nd in st.items() if p[:n] == source}
    for p, nd in mine.items():
        here = after.get(p)
        if kind != 'move':
            require(here == nd, '%s: the source %s is now %r' % (what, fd.sp(p), here))
            continue
        if nd[0] == 'd':
            continue
        q = place + p[n:]
        there = after.get(q)
        if nd[0] == 'f':
            ok = here == nd or (there is not None and there[:2] == nd[:2])
        else:
            ok = here == nd or there == nd or (there is not None and (there[0] == 'd' if rm.isdir(st, p) else
                                                                      there[:2] == rm.node(st, p)[:2] if rm.exists(st, p) else False))
        require(ok, '%s loses %s: source now %r, target %r' % (what, fd.sp(p), here, there))
    for p, nd in st.items():
        if p in mine or p[:len(place)] == place:
            continue
        if target == ('D', 'lfile') and p == ('D', 'keep') and kind != 'move':
            continue        # written through the link
        require(after.get(p) == nd, '%s: %s was %r, is %r' % (what, fd.sp(p), nd, after.get(p)))
    for p in after:
        if p not in st and p[:len(place)] != place and place[:len(p)] != p:
            raise Violated('%s: %s appeared' % (what, fd.sp(p)))
