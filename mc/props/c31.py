"""C31: temporary state is restored."""
import os
from itertools import product

from ..common import load, require, Violated, wipe

OBJECTS = ('W0', 'W1', 'F0', 'R', 'X')
ENDS = ('normal', 'Exception', 'BaseException', 'OSError')
# 's' exists below each of them, but not below an 's'
# (one of them ends with a blank)
DIRS = ('d0', 'd1 ', 'd2')
BOUNDS = {
    'quick': 'all programs of up to 2 statements per block, blocks nested to depth 2, and all chains nested to depth 4, over 5 WorkingDirectory objects '
             '(two of them shared by all blocks, one relative, one to a missing directory), chdir and 4 ways to end a block; '
             'all histories of TempFileHandle of length 6 over 10 operations, for an absolute name, a relative one and one that leads through a link and back',
    'thorough': 'also pairs of statements in blocks nested to depth 3, chains to depth 6; histories of length 7',
}
ASSUMPTIONS = ['the directory to return to still exists']


class Boom(Exception):
    pass


class BigBoom(BaseException):
    pass


class BoomOS(FileNotFoundError):
    pass


RAISES = {'Exception': Boom, 'BaseException': BigBoom, 'OSError': BoomOS}
P0 = ((), (('cd', 'd2'),))


def blocks(bodies, objects=OBJECTS):
    for obj in objects:
        for body in bodies:
            for end in ENDS:
                for caught in ((True, False) if end != 'normal' else (True,)):
                    yield ('with', obj, body, end, caught)


def programs(tier):
    s1 = (('cd', 'd1 '),) + tuple(blocks(P0))
    p1 = [()] + [(s,) for s in s1] + [(s, t) for s in s1 for t in s1]
    for p in p1:
        yield p
    for s in blocks(p1, ('W0', 'R', 'F0')):
        yield (s,)
    # chains: one block in another, each end, with a chdir before or after the inner block
    for n in (range(3, 5) if tier != 'thorough' else range(3, 7)):
        for objs in product(('W0', 'W1', 'R') if n < 5 else ('W0', 'W1'), repeat=n):
            for end in ENDS:
                for caught in range(n + 1):
                    for cd in ((), ('before',), ('after',)):
                        body = ()
                        for i, o in enumerate(reversed(objs)):
                            extra = (('cd', 'd2'),)
                            body = (extra if 'before' in cd else ()) + body + (extra if 'after' in cd else ())
                            # the exception starts in the innermost block and is caught around block `caught`
                            body = (('with', o, body, end if i == 0 else 'normal', i >= caught),)
                        yield body
    if tier == 'thorough':
        s2 = [(s,) for s in blocks([(s,) for s in s1] + [(s, t) for s in s1[::3] for t in s1[::3]], ('W0', 'R'))]
        for b in blocks(s2, ('W0', 'W1')):
            yield (b,)


TEMP_OPS = ('read0', 'read2', 'read', 'close', 'exit', 'exit_exc', 'exit_oserr', 'chdir', 'recreate', 'other')


def cases(ctx):
    batch = []
    for p in programs(ctx.tier):
        batch.append(p)
        if len(batch) == 200:
            yield ('wd', batch)
            batch = []
    yield ('wd', batch)
    n = 7 if ctx.thorough else 6
    for how in ('absolute', 'relative', 'linked'):
        for first in product(TEMP_OPS, repeat=2):
            yield ('temp', how, first, n)


def run(ctx, case):
    top = ctx.local_root()
    os.chdir(ctx.scratch)
    try:
        if case[0] == 'wd':
            for d in DIRS:
                os.makedirs(os.path.join(top, d, 's'))
            for p in case[1]:
                run_program(ctx, top, p)
        else:
            _, how, first, n = case
            for m in range(0, n - 2):
                for rest in product(TEMP_OPS, repeat=m):
                    ops = first + rest
                    if ops.count('chdir') < 3 and ops.count('recreate') < 3 and ops.count('other') < 2:
                        run_temp(ctx, top, how, ops)
    finally:
        os.chdir(ctx.scratch)


def run_program(ctx, top, prog):
    ns = load()
    WD = ns.base.WorkingDirectory
    top = os.path.realpath(top)
    paths = {'W0': 'd0', 'W1': 'd1 ', 'F0': 'd0', 'X': 'nothing'}

    def make(o):
        return WD(ns.URI('./s') if o == 'R' else ns.URI(os.path.join(top, paths[o])))
    shared = {o: make(o) for o in OBJECTS if o != 'F0'}
    cwd = [os.path.join(top, 'd2')]
    os.chdir(cwd[0])

    def at(when):
        require(os.getcwd() == cwd[0], 'the working directory is wrong %s' % when, program=show(prog), got=rel(os.getcwd()), expected=rel(cwd[0]))

    def rel(p):
        return os.path.relpath(p, top)

    def body(p):
        for s in p:
            at('before a statement')
            if s[0] == 'cd':
                cwd[0] = os.path.join(top, s[1])
                os.chdir(cwd[0])
                continue
            _, o, inner, end, caught = s
            before = cwd[0]
            target = os.path.join(before, 's') if o == 'R' else os.path.join(top, paths[o])
            wd = shared[o] if o in shared else make(o)
            entered = False
            thrown = []
            try:
                with wd:
                    entered = True
                    cwd[0] = target
                    at('inside')
                    ctx.count('transitions')
                    try:
                        body(inner)
                        if end != 'normal':
                            raise RAISES[end]()
                    except BaseException as e:
                        thrown.append(e)
                        raise
                require(not thrown, 'a block swallowed an exception', program=show(prog))
            except (Boom, BigBoom, BoomOS) as e:
                require(thrown and thrown[0] is e, 'a block changed the exception', program=show(prog))
                cwd[0] = before
                at('after a block that raised')
                if not caught:
                    raise
            except OSError as e:
                require(not os.path.isdir(target) and not entered, 'entering or leaving failed', program=show(prog), error=repr(e))
            else:
                require(entered and os.path.isdir(target), 'entered a missing directory', program=show(prog))
                require(end == 'normal', 'a block swallowed an exception', program=show(prog))
            cwd[0] = before
            at('after a block')
    try:
        body(prog)
    except (Boom, BigBoom, BoomOS):
        pass
    at('in the end') if cwd[0] == os.getcwd() else require(False, 'the working directory is wrong in the end', program=show(prog))
    ctx.count('traces')
    ctx.see('states', prog)
    ctx.sample(show(prog), 2)


def show(prog):
    return '; '.join('chdir %s' % s[1] if s[0] == 'cd' else 'with %s {%s} %s%s' % (s[1], show(s[2]), s[3], ' caught' if s[4] else '') for s in prog)


TEXT = 'line one\nline two\n\nend'


def run_temp(ctx, top, how, ops):
    load()
    from abl.vpath.base.misc import TempFileHandle
    wipe(top)
    here, there = os.path.join(top, 'here'), os.path.join(top, 'there')
    files = {}

    def put(path, text):
        with open(path, 'w', newline='') as f:
            f.write(text)
        files[path] = text
    os.mkdir(here)
    os.mkdir(there)
    name = os.path.join(here, 't')
    put(os.path.join(here, 'tt'), 'sibling')
    put(os.path.join(there, 't'), 'elsewhere')
    put(name, TEXT)
    # '../lk/..' is 'here'
    os.mkdir(os.path.join(top, 'here', 's'))
    os.symlink(os.path.join('here', 's'), os.path.join(top, 'lk'))
    os.chdir(here)
    try:
        h = TempFileHandle({'absolute': name, 'relative': 't', 'linked': '../lk/../t'}[how])
        closed, pos, entered = False, 0, False

        def fail(what, **kw):
            raise Violated(what, operations=list(ops), name=how, **kw)
        for i, op in enumerate(ops):
            ctx.count('transitions')
            err = got = None
            if op == 'chdir':
                os.chdir(there if os.getcwd() == os.path.realpath(here) else here)
                continue
            if op == 'recreate':
                if closed:
                    put(name, 'somebody else\'s')
                continue
            if op == 'other':
                put(os.path.join(there, 'u'), 'other')
                continue
            try:
                if op == 'read2':
                    got = h.read(2)
                elif op == 'read0':
                    got = h.read(0)
                elif op == 'read':
                    got = h.read()
                elif op == 'close':
                    h.close()
                elif op == 'exit':
                    with h as g:
                        if not closed:
                            got = g.read()
                elif op in ('exit_exc', 'exit_oserr'):
                    try:
                        with h:
                            raise Boom() if op == 'exit_exc' else BoomOS()
                    except (Boom, BoomOS):
                        pass
                    else:
                        fail('the with-block swallowed an exception')
            except Exception as e:
                err = e
            if op.startswith('read'):
                if closed:
                    if err is None:
                        fail('a closed handle can be read', got=got)
                else:
                    want = TEXT[pos:pos + 2] if op == 'read2' else '' if op == 'read0' else TEXT[pos:]
                    pos += len(want)
                    if err is not None or got != want:
                        fail('wrong content', got=got, expected=want, error=repr(err))
            else:
                if err is not None:
                    fail('%s failed with %s' % (op, type(err).__name__), error=str(err))
                if op == 'exit' and not closed and got != TEXT[pos:]:
                    fail('wrong content', got=got, expected=TEXT[pos:])
                if not closed:
                    closed = True
                    del files[name]
            now = {}
            for d in (here, there):
                for n in os.listdir(d):
                    if n == 's':
                        continue
                    with open(os.path.join(d, n), newline='') as f:
                        now[os.path.join(d, n)] = f.read()
            if now != files:
                fail('%s left the wrong files' % op, got=sorted(os.path.relpath(x, top) for x in now), expected=sorted(os.path.relpath(x, top) for x in files))
        ctx.count('traces')
        ctx.see('states', (closed, pos, tuple(sorted(files))))
        if not closed:
            h.handle.close()
    finally:
        os.chdir(ctx.scratch)
