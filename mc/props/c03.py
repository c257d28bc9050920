"""C03: a refused operation changes nothing.

Differential: the tree (content, execute bits, modification times) is observed
before and after every operation that raises; no model of what is refused.
"""
import os

from .. import fsdrive as fd
from .. import mixed
from .. import refmodel as rm
from ..common import require, Violated, load
from .c01 import A, B, AA, AB, BA, AAA, build_ops
from . import c02

BOUNDS = {
    'quick': 'every state within 3 operations on memory, 2 on local, and 4 rich trees (memory, local) x every operation of the alphabet; 19 modes of files and directories x about 600 operations (local, local/memory)',
    'thorough': 'every state within 4 operations on memory, 3 on local, 4 rich trees on both; all pairs of the modes',
}
ASSUMPTIONS = ['a recursive copy that fails on the way may leave part of the copy at the target (C11 covers it); so may a move between backends, if the source cannot be removed']

EXTRA = []
STATES = []
OPS = None
ROPS = None


def extra_ops(paths):
    out = []
    for p in paths:
        for m in ('r', 'r+', 'w', 'a', 'rb', 'wb', 'w+b', 'a+', 'r+b'):
            out.append(('open', p, m))
        for q in ('lock', 'trylock', 'listdir', 'readlink', 'md5', 'walkall', 'mtime', 'info', 'rwrite', 'wread'):
            if p == () and q in ('lock', 'trylock', 'wread'):
                continue
            out.append((q, p))
        out.append(('setmode', p, 0o740))
        out.append(('setexec', p, 0o111))
        out.append(('globstar', p))
    return out


def prepare(tier):
    global STATES, OPS, ROPS
    ops = build_ops(tier)
    grow = [o for o in ops if o[0] in ('mkdir', 'write', 'symlink', 'setexec', 'makedirs')]
    STATES = [('memory', h, s) for h, s in fd.bfs({}, grow, 4 if tier == 'thorough' else 3, maxnodes=5)]
    STATES += [('local', h, s) for h, s in fd.bfs({}, grow, 3 if tier == 'thorough' else 2, maxnodes=5)]
    c02.prepare('quick')
    OPS = ops + [('copystat', s, d) for s in (A, AA, B) for d in (A, AA, B)] + extra_ops([(), A, B, AA, BA])
    ROPS = [o for o in c02.ROPS if o[0] in ('copy', 'copytree', 'move', 'mkdir', 'makedirs', 'write', 'append', 'remove', 'rmr',
                                            'symlink')]
    ROPS += [('copystat', s, d) for s in c02.RPATHS for d in (('d', 'f'), ('nope',), ('loop',), ('d', 'dangling'))]
    ROPS += extra_ops(c02.RPATHS)
    prepare_perms(tier)
    for hist in c02.RICH:
        st = {}
        for op in hist:
            assert fd.model_apply(st, op)[0] == 'ok'
        for b in ('memory', 'local'):
            STATES.append((b, hist, st))


# refusals by permission (the worker is an unprivileged user): modes taken from local files and directories
SUB = (('d',), ('d', 'f'), ('d', 'e'), ('d', 'e', 'g'), ('d', 'lf'), ('x',), ('t',), ('t', 'f'), ('t', 'l'), ('t', 'ld'), ('t', 'dang'))
MODES = [((), 0o500), (('d',), 0o500), (('d',), 0o300), (('d',), 0o400), (('d',), 0), (('d', 'e'), 0o500), (('d', 'e'), 0o300), (('d', 'e'), 0),
         (('d', 'f'), 0o400), (('d', 'f'), 0o200), (('d', 'f'), 0), (('d', 'e', 'g'), 0), (('x',), 0o400), (('x',), 0),
         (('t',), 0o500), (('t',), 0o300), (('t',), 0), (('t', 'f'), 0o400), (('t', 'f'), 0)]
PERMS = []
MODELLED = ('copy', 'copytree', 'move', 'mkdir', 'write', 'append', 'remove', 'rmr', 'symlink')


def perm_nodes(r):
    p = lambda *x: (r,) + x
    return [('mkdir', p('d')), ('write', p('d', 'f'), b'one'), ('setexec', p('d', 'f'), 0o110), ('mkdir', p('d', 'e')),
            ('write', p('d', 'e', 'g'), b'deep'), ('symlink', p('d', 'f'), p('d', 'lf')), ('write', p('x'), b'content of x'),
            ('mkdir', p('t')), ('write', p('t', 'f'), b'the old one'), ('symlink', p('x'), p('t', 'l')),
            ('symlink', p('d', 'e'), p('t', 'ld')), ('symlink', p('nothing'), p('t', 'dang'))]


def perm_ops(pair):
    out = []
    dest = [('D', 't'), ('D', 't', 'f'), ('D', 't', 'l'), ('D', 't', 'ld'), ('D', 't', 'dang'), ('D', 'new'), ('D', 'x'), ('D', 't', 'new')]
    if pair == 'll':
        dest += [('S', 't'), ('S', 't', 'f'), ('S', 't', 'l'), ('S', 'new'), ('S', 'd', 'e', 'n')]
    for s in SUB[:6]:
        for t in dest:
            out += [('move', ('S',) + s, t), ('copy', ('S',) + s, t, True), ('copy', ('S',) + s, t, False)]
            if s in (('d',), ('d', 'e')):
                out += [('copytree', ('S',) + s, t, True), ('copytree', ('S',) + s, t, False)]
            if pair == 'll':
                out.append(('copystat', ('S',) + s, t))
    if pair == 'll':
        for s in SUB + (('new',), ('d', 'new'), ('t', 'new')):
            q = ('S',) + s
            out += [('mkdir', q), ('write', q, b'zz'), ('append', q, b'zz'), ('remove', q), ('rmr', q), ('setexec', q, 0o111),
                    ('symlink', ('S', 'x'), q)]
            out += extra_ops([q])
    return out


def prepare_perms(tier):
    PERMS[:] = []
    for pair in ('ll', 'lm', 'ml'):
        sides = [r for r, k in zip('SD', mixed.PAIRS[pair]) if k == 'local']
        arms = [(((r,) + p, m),) for r in sides for p, m in MODES]
        if tier == 'thorough':
            arms += [(a, b) for (a,) in arms for (b,) in arms if a[0] < b[0]]
        ops = perm_ops(pair)
        for arm in arms:
            for j in range(0, len(ops), 80):
                PERMS.append((pair, arm, ops[j:j + 80]))


def local_of(d, p):
    "the place of a path in the file system, if it's a local one"
    u = d.uri(p)
    return u.path if u.scheme == 'file' else None


def perm_stamp(d):
    out = {}
    for p, nd in d.observe().items():
        lp = local_of(d, p)
        when = os.lstat(lp).st_mtime_ns if lp else str(d.uri(p).mtime()) if nd[0] == 'f' else ''
        out[p] = nd + ((when,) if nd[0] == 'f' else ())
    return out


def perm(ctx, pair, arm, ops):
    nodes = perm_nodes('S') + perm_nodes('D')
    st0 = {('S',): ('d',), ('D',): ('d',)}
    for op in nodes:
        assert fd.model_apply(st0, op)[0] == 'ok'
    allowed = fd.refusals() + c02.lock_error()
    takes = ', '.join('mode %o on %s' % (m, fd.sp(p)) for p, m in arm)
    d = before = None
    for op in ops:
        model = dict(st0)
        if op[0] in MODELLED:
            try:
                fd.model_apply(model, op)
            except rm.Cyclic:
                continue
        if d is None:
            d = mixed.Mixed(ctx, pair)
            d.build(nodes)
            for p in st0:
                if st0[p][0] == 'f' and local_of(d, p):
                    os.utime(local_of(d, p), (10 ** 9, 10 ** 9))
            before = perm_stamp(d)
            ctx.count('traces')
        ctx.count('transitions')
        for p, m in reversed(arm):          # the inner one first
            os.chmod(local_of(d, p), m | (st0[p][2] if st0[p][0] == 'f' else 0))
        refusal = None
        try:
            do(d, op)
        except allowed as e:
            refusal = e
        except Exception as e:
            raise Violated('%s: %s with %s raised %s instead of refusing: %s'
                           % (d.name, fd.show(op), takes, type(e).__name__, str(e)[:200]))
        finally:
            for base in [local_of(d, (r,)) for r in 'SD']:
                if base:
                    open_up(base)
        after = perm_stamp(d)
        if refusal is None:
            if pair == 'll' and op[0] in MODELLED and all(m & 0o100 or st0[p][0] == 'f' for p, m in arm):
                got = {p: nd[:3] for p, nd in after.items()}
                mixed.same(d, got, model, '%s with %s' % (fd.show(op), takes))
            if op[0] not in ('listdir', 'readlink', 'md5', 'walkall', 'mtime', 'info', 'globstar'):
                d = None
            continue
        ctx.count('refused')
        ctx.see('refusals', (op[0], type(refusal).__name__))
        sub = op[0] in ('copytree', 'move', 'rmr') and rm.isdir(st0, op[1])
        if before != after:
            diff = {fd.sp(p): [repr(before.get(p)), repr(after.get(p))] for p in set(before) | set(after) if before.get(p) != after.get(p)}
            if op[0] == 'move' and pair != 'll':
                # from another backend it's copied, and stays at the target, if the source can't be removed
                left = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
                sub = sub or len(left) == 1 and left[0][0] == 'D' and after[left[0]][1:2] == before[rm.lookup(st0, op[1])][1:2]
            if not sub:
                raise Violated('%s: %s with %s was refused with %s but changed the tree' % (d.name, fd.show(op), takes, type(refusal).__name__),
                               before_after=diff)
            d = None


def open_up(base):
    "give back what was taken, from the outside inwards"
    os.chmod(base, os.stat(base).st_mode & 0o777 | 0o700)
    for n in os.listdir(base):
        p = os.path.join(base, n)
        if os.path.islink(p):
            continue
        if os.path.isdir(p):
            open_up(p)
        else:
            os.chmod(p, os.stat(p).st_mode & 0o777 | 0o600)


def cases(ctx):
    for k in range(len(PERMS)):
        yield ('perm', k)
    for i, (b, hist, st) in enumerate(STATES):
        ops = ROPS if hist in c02.RICH else OPS
        for j in range(0, len(ops), 120):
            yield (i, j)


def do(d, op):
    k = op[0]
    u = d.uri(op[1])
    if k == 'open':
        with u.open(op[2]):
            pass
    elif k == 'lock':
        with u.lock():
            pass
    elif k == 'trylock':
        with u.lock(fail_on_lock=True):
            pass
    elif k == 'md5':
        u.md5()
    elif k == 'walkall':
        for _ in u.walk(followlinks=False):
            pass
    elif k == 'mtime':
        u.mtime()
    elif k == 'info':
        u.info()
    elif k == 'setmode':
        u.info(dict(mode=op[2]))
    elif k == 'rwrite':
        with u.open('rb') as f:
            f.write(b'xx')
    elif k == 'wread':
        if not u.isfile():
            return
        with u.open('ab') as f:
            f.read()
    elif k == 'globstar':
        u.glob('*')
    else:
        d._do(op)


def stamp(d):
    "the tree with modification times of its files"
    tree = d.observe()
    return {p: nd + (str(d.uri(p).mtime()) if nd[0] == 'f' else '',) for p, nd in tree.items()}


def run(ctx, case):
    if case[0] == 'perm':
        return perm(ctx, *PERMS[case[1]])
    i, j = case
    backend, hist, st = STATES[i]
    ops = (ROPS if hist in c02.RICH else OPS)[j:j + 120]
    ctx.see('states', (backend, rm.canon(st)))
    d = before = None
    allowed = fd.refusals() + c02.lock_error()
    for op in ops:
        if op[0] in ('copytree', 'move', 'rmr', 'copy'):
            try:
                fd.model_apply(dict(st), op)
            except rm.Cyclic:
                ctx.count('outside')
                continue
        if d is None:
            d = fd.memory_drive() if backend == 'memory' else fd.local_drive(ctx)
            fd.replay(d, hist)
            before = stamp(d)
            ctx.count('traces')
        ctx.count('transitions')
        try:
            do(d, op)
        except allowed as e:
            refusal = e
        except Exception as e:
            raise Violated('%s: %s raised %s instead of refusing: %s' % (backend, fd.show(op), type(e).__name__, str(e)[:200]),
                           history=fd.show_hist(hist))
        else:
            if op[0] not in ('listdir', 'readlink', 'md5', 'walkall', 'mtime', 'info', 'globstar'):
                d = None
            continue
        ctx.count('refused')
        ctx.see('refusals', (op[0], type(refusal).__name__))
        if op[0] == 'copytree' and rm.isdir(st, op[1]):
            d = None
            continue
        after = stamp(d)
        if before != after:
            diff = {fd.sp(p): [repr(before.get(p)), repr(after.get(p))] for p in set(before) | set(after)
                    if before.get(p) != after.get(p)}
            raise Violated('%s: %s was refused with %s but changed the tree' % (backend, fd.show(op), type(refusal).__name__),
                           history=fd.show_hist(hist), before_after=diff)
    # the refused operations have left nothing behind: the tree can still be taken apart and used
    if d is not None:
        for n in sorted(d.root.listdir()):
            (d.root / n).remove(recursive=True)
        require(d.root.listdir() == [], '%s: refused operations left something behind' % backend, history=fd.show_hist(hist))
        for n in ('a', 'd'):
            with (d.root / n).open('wb') as f:
                f.write(b'again')
            with (d.root / n).lock(fail_on_lock=True):
                pass
            require((d.root / n).open('rb').read() == b'again', '%s: content after refused operations' % backend)
    ctx.sample({'backend': backend, 'history': fd.show_hist(hist), 'operations': [fd.show(o) for o in ops[:4]]})
