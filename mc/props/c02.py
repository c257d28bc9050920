"""C02: a program behaves the same on the local and on the memory backend.

Every state of the reference model within the bound is built on both backends;
every operation of a wide alphabet (mutations and queries, including partial
reads, text lines, walks, globs, locks and modes) is executed on both and the
outcomes, returned values and resulting trees are compared with each other.
"""
import os

from .. import fsdrive as fd
from .. import refmodel as rm
from ..common import require, Violated
from .c01 import A, B, AA, AB, BA, AAA, build_ops

BOUNDS = {
    'quick': 'states within 2 operations, plus five larger trees, x about 600 operations and queries on both backends; a program of 19 operations with each of 75 odd names',
    'thorough': 'states within 3 operations, plus five larger trees, x the same operations and queries',
}
ASSUMPTIONS = ['Linux, the local backend on a tmpfs', 'no trailing slash on the path of a file; no "." or ".." components',
               'directory modes and sizes, times and error texts are not compared',
               'operations walking through a cycle of directory links are outside the property']

RICH = [
    (('mkdir', ('d',)), ('write', ('d', 'f'), b'one\ntwo\nthree'), ('mkdir', ('d', 'e')), ('write', ('d', 'e', 'g.txt'), b'x' * 5000),
     ('setexec', ('d', 'f'), 0o101), ('symlink', ('d', 'f'), ('d', 'e', 'lf')), ('symlink', ('d', 'e'), ('ld',)),
     ('symlink', ('nope',), ('d', 'dangling'))),
    (('mkdir', ('d',)), ('write', ('d', ' blank '), b'\xc3\xa4\n\xe2\x82\xac'), ('mkdir', ('d', ' e ')), ('write', ('d', ' e ', 'f#'), b''),
     ('mkdir', ('d', '.hid')), ('write', ('d', '.hid', '.x'), b'h'), ('write', ('.top',), b't')),
    (('write', ('d',), b'content'), ('symlink', ('d',), ('l1',)), ('symlink', ('l1',), ('l2',)), ('symlink', ('loop',), ('loop',)),
     ('mkdir', ('e',)), ('symlink', ('e', 'new'), ('lnew',))),
    (('makedirs', ('d', 'e', 'f', 'g')), ('write', ('d', 'e', 'f', 'g', 'h'), b'deep'), ('write', ('d', 'e', 'x'), b'1'),
     ('symlink', ('d', 'e', 'f'), ('s',)), ('makedirs', ('t', 'e')), ('write', ('t', 'e', 'x'), b'old')),
    # no UTF-8; names that sort otherwise without case, by number or by language
    (('mkdir', ('d',)), ('write', ('d', 'f'), b'\xff\xfe\nb'), ('mkdir', ('d', 'Z')), ('mkdir', ('d', 'e')), ('write', ('d', 'B'), b'\xc3'),
     ('write', ('d', '_'), b'\xef\xbb\xbfx'), ('write', ('d', 'a10'), b'\0\x1a'), ('write', ('d', 'a9'), b''), ('write', ('d', '\u00e9'), b'\xed\xa0\x80')),
]
RPATHS = [('d',), ('d', 'f'), ('d', 'e'), ('d', 'e', 'g.txt'), ('d', 'e', 'lf'), ('ld',), ('ld', 'g.txt'), ('d', 'dangling'),
          ('d', ' blank '), ('d', ' e '), ('d', ' e ', 'f#'), ('d', '.hid'), ('.top',), ('l1',), ('l2',), ('loop',), ('e',),
          ('lnew',), ('s',), ('d', 'B'), ('d', '_'), ('d', 'a10'), ('d', '\u00e9'), ('d', 'e', 'f'), ('t',), ('t', 'e'), ('nope',), ('nope', 'x'), ('d', 'f', 'x')]

# in all the spellings that open() knows
MODES = ('rb+', 'br', 'br+', 'r+b', 'rt', 'rt+', 'tr', 'r+t', 'wb+', 'bw', 'wt', 'tw+', 'ab+', 'ba', 'at', 'a+t')
STATES = []
OPS = None
ROPS = None


def queries(paths):
    out = []
    for p in paths:
        for q in ('exists', 'isfile', 'isdir', 'islink', 'listdir', 'listed', 'read', 'readlink', 'size', 'md5', 'textlines',
                  'next', 'readline', 'chars', 'tell', 'mtime', 'infomode', 'lock', 'rplus', 'wplus', 'aplus', 'wtext',
                  'rwrite', 'wread', 'surrogate'):
            if p == () and q in ('readlink', 'lock', 'wplus', 'wtext', 'aplus', 'wread', 'surrogate'):
                continue
            out.append((q, p))
        for m in MODES:
            if p != () or m[0] == 'r':
                out.append(('mode', p, m))
        for mask in (0o111, 0o100, 0o001):
            out.append(('isexec', p, mask))
        for td in (True, False):
            for fl in (True, False):
                out.append(('walk', p, td, fl))
        for pat in ('*', '?', 'a*', '*.txt', '[!a]', '.*', 'nothing'):
            out.append(('glob', p, pat))
    return out


def do(d, op):
    "queries fsdrive does not know"
    k = op[0]
    u = d.uri(op[1])
    if k == 'md5':
        return u.md5()
    if k == 'listed':
        return list(u.listdir())        # in this order
    if k == 'textlines':
        with u.open('r') as f:
            return [x for x in f]
    if k == 'next':
        with u.open() as f:
            return next(f, None), f.read()
    if k == 'readline':
        with u.open('rb') as f:
            return f.readline(), f.readline(), list(f.readlines())
    if k == 'chars':
        with u.open('r') as f:
            return f.read(1), f.read(2), f.read(0), f.read()
    if k == 'tell':
        with u.open('rb') as f:
            a = f.read(2), f.tell()
            f.seek(1)
            b = f.read(1), f.tell()
            n = f.seek(0, 2)
            f.seek(-1 if n else 0, 2)       # before the start is up to the io library
            return a, b, f.tell(), f.read()
    if k == 'mtime':
        return u.mtime() is not None
    if k == 'infomode':
        if u.isdir():
            return None
        return u.info().mode & 0o111
    if k == 'lock':
        with u.lock() as f:
            f.write('LL')
        return None
    if k == 'rplus':
        with u.open('r+b') as f:
            x = f.read(1)
            f.seek(1)
            f.write(b'ZZ')
            f.seek(0)
            return x, f.read()
    if k == 'wplus':
        with u.open('w+b') as f:
            f.write(b'abc')
            f.seek(1)
            return f.read()
    if k == 'aplus':
        with u.open('a+b') as f:
            f.seek(0)
            x = f.read(1)
            f.seek(0, 2)        # without it, CPython's own buffer shows what was not written there
            f.write(b'END')
            f.seek(0)
            return x, f.read()
    if k == 'wtext':
        with u.open('w') as f:
            f.write(u'\u00e4\u20ac\nz')
        return None
    if k == 'rwrite':
        with u.open('r') as f:
            f.write('no')
        return None
    if k == 'surrogate':
        with u.open('a') as f:
            f.write(u'ok')
            f.write(u'-\udc80-')
        return None
    if k == 'mode':
        with u.open(op[2]) as f:
            out = []
            for what in (lambda: f.read(1), lambda: f.seek(0) and None, lambda: f.write(b'Q' if 'b' in op[2] else u'Q')):
                try:
                    out.append(what())
                except (OSError, ValueError) as e:
                    out.append(isinstance(e, UnicodeError))
            return out
    if k == 'wread':
        with u.open('w') as f:
            return f.read()
    if k == 'walk':
        base = len(u.path.rstrip('/'))
        return [(r.path[base:].strip('/'), list(ds), list(fs)) for r, ds, fs in u.walk(topdown=op[2], followlinks=op[3])]
    if k == 'glob':
        return [g.path[len(u.path.rstrip('/')) + 1:] for g in u.glob(op[2])]
    return d._do(op)


WALKS = ('walk', 'copytree', 'rmr')


def lock_error():
    from abl.util import lockfile
    return (lockfile.LockFileCreationException, lockfile.LockFileObtainException)


def attempt(d, op):
    try:
        return ('ok', do(d, op))
    except fd.refusals() as e:
        return ('no', type(e).__name__)
    except UnicodeError as e:
        return ('no', type(e).__name__)
    except Exception as e:
        if op[0] == 'lock' and isinstance(e, lock_error()):
            return ('no', type(e).__name__)
        raise Violated('%s: %s raised %s instead of refusing: %s' % (d.name, fd.show(op), type(e).__name__, str(e)[:200]))


def prepare(tier):
    global STATES, OPS, ROPS
    ops = build_ops(tier)
    grow = [o for o in ops if o[0] in ('mkdir', 'write', 'symlink', 'setexec', 'makedirs')]
    STATES = fd.bfs({}, grow, 3 if tier == 'thorough' else 2, maxnodes=5)
    OPS = ops + queries([(), A, B, AA, BA])
    rich = [('copy', s, d, fl) for s in RPATHS[:-3] for d in (('e',), ('new',), ('d',), ('t',), ('d', 'e', 'lf')) for fl in (True, False)]
    rich += [('copytree', s, d, fl) for s in RPATHS[:-3] for d in (('e',), ('new',), ('d',), ('t',), ('t', 'n', 'm')) for fl in (True, False)]
    rich += [('copytree', ('d',), ('new',), True, ('e', '.hid')), ('copytree', ('d',), ('new',), False, ('f', ' e '))]
    rich += [('move', s, d) for s in RPATHS for d in (('e',), ('new',), ('d',), ('t',), ('l2',), ('d', 'e', 'lf'))]
    for p in RPATHS:
        rich += [('mkdir', p), ('makedirs', p), ('makedirs', p + ('q', 'r')), ('write', p, b'W'), ('append', p, b'+'),
                 ('remove', p), ('rmr', p), ('setexec', p, 0o111), ('symlink', ('d',), p), ('copystat', ('d', 'f'), p)]
    ROPS = rich + queries(RPATHS)
    for hist in RICH:
        st = {}
        for op in hist:
            r = fd.model_apply(st, op)
            assert r[0] == 'ok', (op, r)
        STATES.append((hist, st))


# names that something might take for more than a name
NAMES = [' ', '  ', ' a', 'a ', '\t', '\n', 'a\nb', '\r', '.a', '..a', '...', '....', 'a.', '.a.', '~', '~root', '*', '[a]', '[', ']', '{a}', '!a', '$HOME', '%', '%41', '%2F', '+', 'a+b',
         '&', '&amp;', '=', 'k=v', ';', ':', 'a:b', ':a', '@', 'u@h', 'h:80', '((', '))', '((a))', "'", '"', '`', '|', '<', '>', '\x01', '\x7f', '\xa0', '\u2028', '\u00e9', 'e\u0301',
         '\U0001f600', '\u200b', 'x' * 255, '-', '--', '-r', 'con', 'None', '0', '#', 'a#b', '#a', 'a#', ',', '^', '__inner_part__', 'file', 'memory', 'e' * 100 + ' ', '_', 'A', 'a' * 64]


def program(d, name, other):
    "-> what a program sees that uses a name for everything"
    seen = []
    u = d.uri

    def see(what, *more):
        seen.append((what,) + more)
    for op in (('mkdir', ('d',)), ('mkdir', ('d', name)), ('write', ('d', name, name), b'1'), ('write', (name,), b'23'), ('append', (name,), b'4'), ('makedirs', ('m', name, name)),
               ('symlink', ('d', name), ('d', other)), ('mkdir', (name, name)), ('mkdir', ('d', name)), ('copytree', ('d',), ('e',), True), ('copytree', ('d', name), ('e',), False),
               ('copy', (name,), ('d', name), True), ('copy', ('d', name, name), ('m', name), True), ('setexec', (name,), 0o111), ('move', ('m', name), ('n',)),
               ('move', ('n',), ('m',)), ('remove', ('d', name)), ('remove', ('e', name, name)), ('rmr', ('e',))):
        r = attempt(d, op)
        see(op, r)
        for p in ((name,), ('d', name), ('d', name, name), ('d', other), ('m', 'n', name)):
            for q in ('exists', 'isfile', 'isdir', 'islink', 'read', 'listdir', 'readlink'):
                r = attempt(d, (q, p))
                see(q, p, r if r[0] == 'ok' else 'no')
        for p in ((), ('d',), ('e',)):
            for q in (('listed', p), ('walk', p, True, True), ('walk', p, False, False), ('glob', p, '*')):
                r = attempt(d, q)
                see(q, r if r[0] == 'ok' else 'no')
    v = u(('d', name))
    see('name', v.basename(), v.last(), v.splitext(), v.dirname() == u(('d',)), v.dirname() / name == v, v.split()[1])
    see(sorted(d.observe().items()))
    return seen


def names(ctx, name):
    other = 'o' if name != 'o' else 'p'
    mem, loc = fd.memory_drive(), fd.local_drive(ctx)
    a, b = program(mem, name, other), program(loc, name, other)
    for x, y in zip(a, b):
        x, y = [tuple(('no',) if isinstance(z, tuple) and z[:1] == ('no',) else z for z in w) for w in (x, y)]
        require(x == y, 'with the name %r memory and local differ' % name, memory=repr(x)[:300], local=repr(y)[:300])
    for d, base in ((mem, None), (loc, loc.root.path)):
        if base is None:
            continue
        real = {tuple(os.path.relpath(os.path.join(r, n), base).split('/')) for r, ds, fs in os.walk(base) for n in ds + fs}
        require(real == set(d.observe()), 'the name %r is another one to the operating system' % name, got=sorted(map(str, real)), expected=sorted(map(str, d.observe())))
    require(any(name in p for p in loc.observe()), 'nothing has the name %r' % name)
    ctx.count('transitions', len(a))
    ctx.count('traces', 2)


def cases(ctx):
    for k in range(len(NAMES)):
        yield ('name', k)
    n = len(STATES) - len(RICH)
    for i in range(len(STATES)):
        ops = OPS if i < n else ROPS
        for j in range(0, len(ops), 100):
            yield (i, j)


def in_domain(st, op):
    "not an endless walk, not a directory's mode"
    if op[0] in ('walk', 'copytree', 'rmr'):
        try:
            if op[0] == 'walk':
                for _ in rm.walk(st, op[1], True, op[3]):
                    pass
        except rm.Cyclic:
            return False
        except rm.Err:
            return True
    if op[0] in ('isexec', 'setexec') and rm.isdir(st, op[1]):
        return False
    if op[0] == 'copystat' and (rm.isdir(st, op[1]) or rm.isdir(st, op[2])):
        return False
    if op[0] == 'size' and rm.isdir(st, op[1]):
        return False
    return True


MUTATES = ('mkdir', 'makedirs', 'write', 'append', 'remove', 'rmr', 'symlink', 'copy', 'copytree', 'move', 'setexec', 'copystat',
           'lock', 'rplus', 'wplus', 'aplus', 'wtext', 'rwrite', 'wread', 'surrogate', 'mode')


def run(ctx, case):
    if case[0] == 'name':
        return names(ctx, NAMES[case[1]])
    i, j = case
    hist, st = STATES[i]
    ops = (OPS if i < len(STATES) - len(RICH) else ROPS)[j:j + 100]
    ctx.see('states', rm.canon(st))
    mem = loc = None
    for op in ops:
        if not in_domain(st, op):
            ctx.count('outside')
            continue
        known = None
        if op[0] in ('copy', 'copytree', 'move'):
            s2 = dict(st)
            try:
                known = fd.model_apply(s2, op)
            except rm.Cyclic:
                ctx.count('outside')
                continue
        if mem is None:
            mem, loc = fd.memory_drive(), fd.local_drive(ctx)
            fd.replay(mem, hist)
            fd.replay(loc, hist)
            ctx.count('traces', 2)
        a, b = attempt(mem, op), attempt(loc, op)
        ctx.count('transitions')
        ctx.see('outcomes', (op[0], a[0]))
        require(a[0] == b[0] and (a[0] == 'no' or a[1] == b[1]),
                '%s: memory gave %r, local gave %r' % (fd.show(op), a, b), history=fd.show_hist(hist))
        if op[0] in MUTATES:
            if not (op[0] == 'copytree' and a[0] == 'no'):
                # the mode of a file that lock() creates is up to the platform's lock file
                modes = op[0] != 'lock'
                x, y = mem.observe(modes), loc.observe(modes)
                require(x == y, '%s leaves different trees' % fd.show(op), history=fd.show_hist(hist),
                        memory=fd.show_state(x), local=fd.show_state(y))
                if x != st or not modes:
                    mem = None
            else:
                mem = None
    ctx.sample({'history': fd.show_hist(hist), 'operations': [fd.show(o) for o in ops[:5]]})
