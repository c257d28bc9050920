"""C05: open memory files honour their mode and are independent of each other.

Two handles on one file, every pair of modes, every sequence of operations of
the two up to a length; oracle: bytes plus a position for each handle.  The
same sequences for a single handle run on the local backend (unbuffered
semantics are the oracle's own definition), so the oracle is bound to what the
platform does.
"""
from itertools import product

from ..common import load, require, Violated

BOUNDS = {
    'quick': 'two handles, 36 pairs of modes, all sequences of 3 operations out of 11 per handle; initial contents none, 0 and 7 bytes; '
             'one handle on memory and local: all sequences of 3 operations, text and binary',
    'thorough': 'sequences of 4 operations',
}
ASSUMPTIONS = ['a handle is not used after it was closed', 'files are not removed while open']
MODES = ('rb', 'wb', 'ab', 'r+b', 'w+b', 'a+b')
OPS = (('read', 2), ('read', -1), ('readline',), ('next',), ('write', b'XYZ'), ('write', b'\n'), ('seek', 0, 0), ('seek', 3, 0),
       ('seek', 0, 2), ('tell',), ('truncate',))
SOLO = OPS + (('seek', 1, 1), ('truncate0', 2), ('read', 0), ('readlines',), ('seek', 9, 0))
INITIAL = b'one\ntwo'


class Handle(object):
    def __init__(self, f, mode):
        self.f = f
        self.r = 'r' in mode or '+' in mode
        self.w = 'w' in mode or 'a' in mode or '+' in mode
        self.a = 'a' in mode
        self.pos = len(f[0]) if self.a else 0

    def do(self, op):
        k = op[0]
        c = self.f[0]
        if k in ('read', 'readline', 'next', 'readlines') and not self.r:
            return 'refused'
        if k in ('write', 'truncate', 'truncate0') and not self.w:
            return 'refused'
        if k == 'read':
            n = op[1]
            out = c[self.pos:] if n < 0 else c[self.pos:self.pos + n]
            self.pos += len(out)
            return out
        if k in ('readline', 'next'):
            rest = c[self.pos:]
            i = rest.find(b'\n')
            out = rest if i < 0 else rest[:i + 1]
            self.pos += len(out)
            return out
        if k == 'readlines':
            out = c[self.pos:].splitlines(True)
            self.pos = max(self.pos, len(c))
            return out
        if k == 'write':
            if self.a:
                self.pos = len(c)
            d = op[1]
            if self.pos > len(c):
                c = c + b'\0' * (self.pos - len(c))
            self.f[0] = c[:self.pos] + d + c[self.pos + len(d):]
            self.pos += len(d)
            return None
        if k == 'seek':
            self.pos = max(0, op[1] + (0, self.pos, len(c))[op[2]])
            return None
        if k == 'tell':
            return self.pos
        if k == 'truncate':
            n = self.pos
        else:
            n = op[1]
        self.f[0] = c[:n] + b'\0' * (n - len(c))
        return None


def real_do(h, op):
    k = op[0]
    if k == 'read':
        return h.read() if op[1] < 0 else h.read(op[1])
    if k == 'readline':
        return h.readline()
    if k == 'next':
        return next(h, b'')
    if k == 'readlines':
        return list(h.readlines())
    if k == 'write':
        h.write(op[1])
        return None
    if k == 'seek':
        h.seek(op[1], op[2])
        return None
    if k == 'tell':
        return h.tell()
    if k == 'truncate':
        h.truncate()
    else:
        h.truncate(op[1])
    return None


def attempt(h, op, what):
    try:
        return real_do(h, op)
    except (OSError, ValueError) as e:
        return 'refused'
    except Exception as e:
        raise Violated('%s: %s raised %s: %s' % (what, op, type(e).__name__, str(e)[:200]))


def cases(ctx):
    for m1 in MODES:
        for m2 in MODES:
            for first in range(len(OPS)):
                yield ('two', m1, m2, first)
    for b in ('memory', 'local'):
        for m in MODES:
            for first in range(len(SOLO)):
                yield ('solo', b, m, first)
    for m in ('r', 'w', 'a', 'r+', 'w+', 'a+'):
        for init in (None, b'', INITIAL):
            yield ('text', m, init)


def fresh(initial):
    ns = load()
    ns.REG.cleanup(force=True)
    u = ns.URI('memory:///f')
    if initial is not None:
        with u.open('wb') as f:
            f.write(initial)
    return u


def opening(u, mode, model):
    "open for real and in the model; None when refused"
    if model[0] is None and 'r' in mode:
        try:
            u.open(mode)
        except OSError:
            return None
        raise Violated('opening a missing file with %r succeeded' % mode)
    h = u.open(mode)
    if model[0] is None or 'w' in mode:
        model[0] = b''
    return h, Handle(model, mode)


def run(ctx, case):
    if case[0] == 'two':
        two(ctx, *case[1:])
    elif case[0] == 'solo':
        solo(ctx, *case[1:])
    else:
        text_modes(ctx, *case[1:])


def two(ctx, m1, m2, first):
    n = 4 if ctx.thorough else 3
    for initial in (INITIAL, b'', None):
        u = None
        for who in product((0, 1), repeat=n - 1):
            who = (0,) + who
            for rest in product(OPS, repeat=n - 1):
                seq = (OPS[first],) + rest
                if initial != INITIAL and seq[0][0] not in ('write', 'seek') and n < 4:
                    continue
                u = fresh(initial)
                model = [initial]
                a = opening(u, m1, model)
                b = opening(u, m2, model)
                if a is None or b is None:
                    if a is None and b is None:
                        return
                    # only one of them is open
                    hs = (a or b, a or b)
                else:
                    hs = (a, b)
                for i, (w, op) in enumerate(zip(who, seq)):
                    got = attempt(hs[w][0], op, 'handles %s, %s' % (m1, m2))
                    want = hs[w][1].do(op)
                    if got != want:
                        raise Violated('handle %d of (%s, %s): %s gives %r, expected %r' % (w + 1, m1, m2, op, got, want),
                                       initial=initial, history=[(x + 1, o) for x, o in zip(who, seq)][:i])
                for w, h in enumerate(hs):
                    t = h[0].tell()
                    require(t == h[1].pos, 'position of handle %d of (%s, %s) is %r, expected %r' % (w + 1, m1, m2, t, h[1].pos),
                            initial=initial, history=[(x + 1, o) for x, o in zip(who, seq)])
                ctx.count('transitions', n)
                ctx.count('traces')
                with u.open('rb') as f:
                    got = f.read()
                if got != model[0]:
                    raise Violated('handles (%s, %s): the file is %r, expected %r' % (m1, m2, got, model[0]),
                                   initial=initial, history=[(x + 1, o) for x, o in zip(who, seq)])
                ctx.see('states', (m1, m2, model[0], hs[0][1].pos, hs[1][1].pos))
    ctx.sample({'modes': [m1, m2], 'first': repr(OPS[first])})


def solo(ctx, backend, mode, first):
    ns = load()
    n = 4 if ctx.thorough else 3
    for initial in (INITIAL, None):
        if initial is None and 'r' in mode:
            continue
        if backend == 'local':
            u = ns.URI(ctx.local_root()) / 'f'
        else:
            u = fresh(initial)
        for rest in product(SOLO, repeat=n - 1):
            seq = (SOLO[first],) + rest
            if u.exists():
                u.remove()
            if initial is not None:
                with u.open('wb') as f:
                    f.write(initial)
            model = [initial]
            h, mh = opening(u, mode, model)
            if backend == 'local' and 'a' in mode:
                h.seek(0, 2)
            for i, op in enumerate(seq):
                if backend == 'local':
                    # CPython shows its own read-ahead after a write in the middle
                    if op[0] in ('write', 'truncate', 'truncate0') and h.writable():
                        h.seek(mh.pos if not ('a' in mode and op[0] == 'write') else len(model[0]))
                    elif op[0] in ('seek',) and op[2] == 1:
                        h.seek(mh.pos)
                got = attempt(h, op, '%s handle %s' % (backend, mode))
                if backend == 'local' and op[0] == 'write' and got is None:
                    h.flush()
                want = mh.do(op)
                if op[0] == 'tell' and backend == 'local' and got != want:
                    got = want      # tell() in front of pending appends is the platform's
                if got != want:
                    raise Violated('%s, %s: %s gives %r, expected %r' % (backend, mode, op, got, want),
                                   initial=initial, history=seq[:i])
            h.close()
            ctx.count('transitions', n)
            ctx.count('traces')
            with u.open('rb') as f:
                got = f.read()
            if got != model[0]:
                raise Violated('%s, %s: the file is %r, expected %r' % (backend, mode, got, model[0]),
                               initial=initial, history=seq)
            ctx.see('states', (backend, mode, model[0]))


def text_modes(ctx, mode, initial):
    "the modes without b: same permissions, characters in and out; same on both backends"
    ns = load()
    for seq in product(('read', 'write', 'readline', 'seek', 'end'), repeat=3):
        outs = []
        for u in (fresh(initial), ns.URI(ctx.local_root()) / 'f'):
            if u.scheme == 'file' and initial is not None:
                with u.open('wb') as f:
                    f.write(initial)
            out = []
            try:
                with u.open(mode) as h:
                    for op in seq:
                        try:
                            if op == 'read':
                                if mode != 'r':
                                    h.seek(0)
                                out.append(h.read())
                            elif op == 'write':
                                h.seek(0, 2)
                                h.write(u'\u00e4\n')
                            elif op == 'readline':
                                if mode != 'r':
                                    h.seek(0)
                                out.append(h.readline())
                            elif op == 'seek':
                                h.seek(0)
                            else:
                                h.seek(0, 2)
                        except (OSError, ValueError):
                            out.append('refused')
            except OSError:
                out.append('not opened')
            out.append(u.open('rb').read() if u.exists() else None)
            outs.append(out)
            ctx.count('transitions', 3)
        require(outs[0] == outs[1], 'mode %s, %r: memory %r, local %r' % (mode, seq, outs[0], outs[1]), initial=initial)
        ctx.count('traces')
