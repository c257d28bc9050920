"""C33: threads that use a file system at the same time do not disturb each other."""
import sys

from .. import refmodel as rm
from .. import sched
from ..common import load, require
from ..fsdrive import Drive, model_apply, show_state

BOUNDS = {
    'quick': 'all pairs of 24 operations on entries of their own (the 8 long ones with 4 others), and 49 pairs and triples that meet in one directory or file, 1 preemption '
             '(2 for the primitive ones of those that meet), at every bytecode that can touch shared state; a part of them on local files; 16 pairs with the same URI objects',
    'thorough': 'all of these pairs, 2 preemptions, 1 with a long operation; 3 for those that meet in a primitive operation',
}
ASSUMPTIONS = ['switches between threads happen between bytecodes (the GIL); code below /repo/abl is preempted, the standard library is not',
               'copy, move and recursive operations are made of several steps: others may see them half done, what they leave in the end is asked']
CASE_TIMEOUT = 800
# looking up the connection is the business of C16
ATOMIC = ('ConnectionRegistry.', 'with_connection')

T1, T2 = b'one' * 3, b'two' * 3

# words of a thread t: {t} becomes its number; every word is an operation, or steps of one
OWN = [
    'mkdir d/n{t}', 'makedirs d/n{t}/x', 'makedirs e/{t}/x/y', 'write d/n{t}', 'write d/f{t}', 'append d/f{t}', 'read d/f{t}', 'read ld/f{t}', 'lines d/f{t}',
    'remove d/f{t}', 'remove d/e{t}', 'symlink d/f{t} d/l{t}', 'copy d/f{t} d/n{t}', 'copy d/f{t} e', 'move d/f{t} e', 'move d/f{t} d/n{t}', 'copytree s{t} d/n{t}',
    'rmr s{t}', 'move s{t} e', 'walk s{t}', 'listdir d', 'md5 d/f{t}', 'setexec d/f{t}', 'isfile d/f{t}',
]
# threads that meet; * : linearizable as a whole
MEET = [
    ('mkdir d/n', 'mkdir d/n'), ('makedirs d/n/x', 'makedirs d/n/x'), ('makedirs d/n/x', 'makedirs d/n/y'), ('makedirs n', 'makedirs n/x/y'), ('mkdir d/n', 'makedirs d/n/x'),
    ('mkdir d/n', 'write d/n'), ('write d/n', 'write d/n'), ('write d/n', 'append d/n'), ('append d/n', 'append d/n'), ('append d/f1', 'append d/f1'),
    ('append d/f1 append d/f1', 'append d/f1'), ('append d/f1', 'append d/f1', 'append d/f1'), ('append ld/f1', 'append d/f1'),
    ('read d/f1', 'read d/f1'), ('read d/f1 read d/f1', 'read ld/f1'), ('chunks d/f1', 'chunks d/f1'), ('lines d/f1', 'lines d/f1'), ('lines d/f1', 'chunks d/f1'), ('text d/f1', 'text d/f1'),
    ('read d/f1', 'append d/f1'), ('md5 d/f1', 'md5 d/f1'), ('read d/f1', 'read d/f1', 'read d/f1'), ('update d/f1', 'read d/f2'), ('seek d/f1', 'seek d/f1'), ('seek d/f1', 'lines d/f1'),
    ('copy d/f1 d/n', 'read d/f1'), ('copy d/f1 d/n1', 'copy d/f1 d/n2'), ('copytree s1 n1', 'copytree s1 n2'), ('copytree s1 n1', 'lines s1/k'),
    ('remove d/f1', 'remove d/f1'), ('remove d/e1', 'remove d/e1'), ('remove d/f1', 'read d/f1'), ('remove d/f1', 'mkdir d/f1'), ('remove d/e1', 'mkdir d/e1'), ('remove d/f1', 'append d/f1'),
    ('symlink d/f1 d/n', 'symlink d/f2 d/n'), ('symlink d/f1 d/n', 'mkdir d/n'), ('symlink d/f1 d/n', 'write d/n'), ('symlink d/f1 d/n', 'read d/n'),
    ('remove d/e1', 'mkdir d/e1/x'), ('remove d/e1', 'write d/e1/x'), ('remove d/e1', 'symlink d/f1 d/e1/x'), ('remove d/e1 mkdir d/e1', 'write d/e1/x'), ('remove d/e1', 'makedirs d/e1/x/y'),
    ('mkdir d/n mkdir d/n/x', 'mkdir d/n/y'), ('listdir d', 'mkdir d/n remove d/f1'), ('listdir d listdir d', 'write d/n'), ('glob d', 'remove d/f1'), ('isdir d/e1', 'remove d/e1'),
    ('setexec d/f1', 'setexec d/f1'), ('copytree s1 n1', 'mkdir s1/n'), ('copytree s1 n1', 'symlink d/f1 s1/n'), ('walk s1', 'mkdir s1/n'), ('move d/f1 e', 'mkdir d/n'),
]
LOCAL = [('mkdir d/n', 'mkdir d/n'), ('makedirs d/n/x', 'makedirs d/n/x'), ('makedirs d/n/x', 'makedirs d/n/y'), ('makedirs n', 'makedirs n/x/y'), ('mkdir d/n', 'makedirs d/n/x'),
         ('remove d/f1', 'remove d/f1'), ('remove d/e1', 'mkdir d/e1/x'), ('append d/f1', 'append d/f1'), ('read d/f1', 'read d/f1'), ('copytree s1 n1', 'copytree s1 n2'),
         ('move d/f1 e', 'move d/f2 e'), ('symlink d/f1 d/n', 'symlink d/f2 d/n'), ('rmr s1', 'copytree s2 d/n')]
NODES = [(('d',), ('d',)), (('d', 'f1'), ('f', b'a1\nb1\n', 0)), (('d', 'f2'), ('f', b'a2\nb2\n', 0)), (('d', 'e1'), ('d',)), (('d', 'e2'), ('d',)), (('e',), ('d',)),
         (('s1',), ('d',)), (('s1', 'k'), ('f', b'K1', 0)), (('s2',), ('d',)), (('s2', 'k'), ('f', b'K2', 0)), (('ld',), ('l', ('d',)))]


def setup(ctx):
    sched.install()
    load()
    sys.stderr = open('/dev/null', 'w')


def words(text):
    "-> list of (verb, path...)"
    out = []
    for x in text.split():
        if '/' in x or x in ('d', 'e', 'n', 's1', 's2', 'n1', 'n2'):
            out[-1] = out[-1] + (tuple(x.split('/')),)
        else:
            out.append((x,))
    return out


def cases(ctx):
    for i, a in enumerate(OWN):
        for b in OWN[i:]:
            long = [x for x in (a, b) if x.split()[0] in LONG]
            if not ctx.thorough and long and not (len(long) == 1 and (set((a, b)) & SIMPLE)):
                continue
            if not ctx.thorough and 'move s{t} e' in long and 'write d/n{t}' not in (a, b):
                continue
            n = 8 if long or ctx.thorough else 1
            for k in range(n):
                yield ('memory', (a.format(t=1), b.format(t=2)), 2 if ctx.thorough and not long else 1, False, (k, n))
    for m in MEET:
        verbs = {w[0] for t in m for w in words(t)}
        small = len(m) == 2 and max(len(words(t)) for t in m) == 1 and verbs <= SMALL
        bound = (3 if small else 2) if ctx.thorough else (2 if small else 1)
        n = 1 if bound == 1 and not verbs & LONG else 8
        for k in range(n):
            yield ('memory', m, bound, True, (k, n))
    for m in LOCAL:
        for k in range(2):
            yield ('local', m, 2 if ctx.thorough else 1, True, (k, 2))
    for m in SHARED:
        for backend in ('memory', 'local'):
            for k in range(2):
                yield (backend, m, 1, 'shared', (k, 2))


SHARED = [('read d/f1', 'read d/f1'), ('mkdir d/n', 'mkdir d/n'), ('append d/f1', 'append d/f1'), ('makedirs d/n/x', 'makedirs d/n/x'), ('remove d/f1', 'remove d/f1'), ('symlink d/f1 d/n', 'read d/f1'),
          ('listdir d', 'mkdir d/n'), ('isdir d', 'glob d'), ('md5 d/f1', 'read d/f1'), ('copy d/f1 d/n', 'read d/f1'), ('copy d/f1 d/n', 'copy d/f1 d/n'), ('walk s1', 'walk s1'),
          ('setexec d/f1', 'read d/f1'), ('rmr s1', 'mkdir d/n'), ('move d/f1 e', 'listdir e'), ('copytree s1 n1', 'walk s1')]


LONG = {'copy', 'copytree', 'move', 'rmr', 'walk'}
SIMPLE = {'write d/n{t}', 'read d/f{t}', 'mkdir d/n{t}', 'remove d/f{t}'}
SMALL = {'mkdir', 'write', 'append', 'read', 'symlink', 'listdir', 'update', 'isdir'}
CHUNK = {0: T1, 1: T2, 2: b'thr' * 3}


def needed(threads):
    "the nodes of the start tree that matter"
    ps = set()
    tops = set()
    for t in threads:
        for w in words(t):
            for p in w[1:]:
                ps.add(p)
                if p[0] == 'ld':
                    ps.add(('d',) + p[1:])
                if w[0] in ('copytree', 'rmr', 'walk', 'listdir', 'glob') or p[0] in ('s1', 's2'):
                    tops.add(p)
    out = {}
    for p, nd in NODES:
        if any(q[:len(p)] == p for q in ps) or any(p[:len(q)] == q for q in tops):
            out[p] = nd
    return out


def atoms(w, tid):
    """an operation as the model's atomic steps; each gets the thread's list of results and returns nothing"""
    verb, data = w[0], CHUNK[tid]
    if verb == 'write':
        return [('write', w[1], data)]
    if verb == 'append':
        return [('append', w[1], data)]
    if verb in ('read', 'chunks', 'lines', 'text', 'md5', 'seek'):
        return [('read', w[1])]
    if verb == 'update':
        return [('update', w[1])]
    if verb == 'copy':
        return [('copy', w[1], w[2], True)]
    if verb == 'copytree':
        return [('copytree', w[1], w[2], True)]
    if verb == 'move':
        return [('pmove', w[1], w[2]), ('pmoved', w[1], w[2])] if w[1][0] == 'd' else [('move', w[1], w[2])]
    if verb == 'setexec':
        return [('setexec', w[1], 0o111)]
    if verb == 'glob':
        return [('listdir', w[1])]
    if verb == 'walk':
        return [('walk', w[1])]
    if verb == 'makedirs' and len(w[1]) > 1:
        # step by step
        return [('mk?', w[1][:n]) for n in range(1, len(w[1]) + 1)]
    return [w]


def step(st, a):
    "-> None or the result"
    if a[0] == 'mk?':
        if not rm.isdir(st, a[1]):
            return model_apply(st, ('mkdir', a[1]))
        return ('ok', None)
    if a[0] == 'pmove':
        return model_apply(st, ('copy', a[1], a[2], True))
    if a[0] == 'pmoved':
        return model_apply(st, ('remove', a[1]))
    if a[0] == 'walk':
        return ('ok', tuple((p, tuple(d), tuple(f)) for p, d, f in rm.walk(st, a[1])))
    if a[0] == 'update':
        r = model_apply(st, ('read', a[1]))
        if r[0] == 'ok':
            st[a[1]] = ('f', b'U' + r[1][1:], st[a[1]][2])
            return ('ok', r[1][1:])
        return r
    r = model_apply(st, a)
    if r[0] == 'ok' and isinstance(r[1], list):
        return ('ok', tuple(sorted(r[1])))
    return r


def outcomes(threads, st0):
    """all (results, final tree) of the threads' operations one after the other"""
    seen = set()
    progs = []
    for tid, t in enumerate(threads):
        p = []
        for n, w in enumerate(words(t)):
            ats = atoms(w, tid)
            for i, a in enumerate(ats):
                p.append((n, a, i == len(ats) - 1))
        progs.append(p)
    todo = [(tuple(0 for _ in progs), tuple(() for _ in progs), tuple(sorted(st0.items())))]
    final = set()
    while todo:
        item = todo.pop()
        if item in seen:
            continue
        seen.add(item)
        pos, res, st = item
        done = True
        for t, p in enumerate(progs):
            if pos[t] >= len(p):
                continue
            done = False
            n, a, last = p[pos[t]]
            st2 = dict(st)
            r = step(st2, a)
            npos = pos[t] + 1
            if r[0] == 'no':
                out = 'no'
                while npos < len(p) and p[npos][0] == n:
                    npos += 1
            else:
                out = r if last else None
            nres = res[t] + ((out,) if out is not None else ())
            todo.append((pos[:t] + (npos,) + pos[t + 1:], res[:t] + (nres,) + res[t + 1:], tuple(sorted(st2.items()))))
        if done:
            final.add((res, st))
    return final


def perform(drive, uris, w, tid):
    """-> 'no' or ('ok', value)"""
    verb = w[0]
    us = [uris[p] for p in w[1:]]
    u = us[0]
    value = None
    if verb == 'mkdir':
        u.mkdir()
    elif verb == 'makedirs':
        u.makedirs()
    elif verb == 'write':
        with u.open('wb') as f:
            f.write(CHUNK[tid])
    elif verb == 'append':
        with u.open('ab') as f:
            f.write(CHUNK[tid])
    elif verb == 'read':
        with u.open('rb') as f:
            value = f.read()
    elif verb == 'chunks':
        with u.open('rb') as f:
            value = f.read(2) + f.read(1) + f.read()
    elif verb == 'seek':
        with u.open('rb') as f:
            f.seek(3)
            rest = f.read()
            f.seek(0)
            value = f.read(3) + rest
    elif verb == 'lines':
        with u.open('rb') as f:
            value = b''.join(list(f))
    elif verb == 'text':
        with u.open('r') as f:
            value = (f.read(2) + f.read()).encode('ascii')
    elif verb == 'update':
        with u.open('r+b') as f:
            f.write(b'U')
            value = f.read()
    elif verb == 'md5':
        import hashlib
        h = u.md5()
        for x in (b'a1\nb1\n', b'a2\nb2\n'):
            if hashlib.md5(x).hexdigest() == h:
                value = x
    elif verb == 'remove':
        u.remove()
    elif verb == 'rmr':
        u.remove(recursive=True)
    elif verb == 'symlink':
        u.symlink(us[1])
    elif verb == 'copy':
        u.copy(us[1])
    elif verb == 'copytree':
        u.copy(us[1], recursive=True)
    elif verb == 'move':
        u.move(us[1])
    elif verb == 'walk':
        n = len([x for x in drive.root.path.split('/') if x])
        value = tuple((tuple(x for x in r.path.split('/') if x)[n:], tuple(d), tuple(f)) for r, d, f in u.walk())
    elif verb == 'listdir':
        value = tuple(sorted(u.listdir()))
    elif verb == 'glob':
        value = tuple(sorted(x.last() for x in u.glob('*')))
    elif verb == 'setexec':
        u.set_exec(0o111)
    elif verb == 'isfile':
        value = u.isfile()
    elif verb == 'isdir':
        value = u.isdir()
    else:
        raise AssertionError(verb)
    return ('ok', value)


def run(ctx, case):
    ns = load()
    backend, threads, bound, meet, shard = case
    st0 = needed(threads)
    allowed = outcomes(threads, st0)
    ctx.count('allowed', len(allowed))
    state = {}

    def make():
        if backend == 'memory':
            ns.REG.cleanup(force=True)
            root = ns.URI('memory:///')
        else:
            root = ns.URI(ctx.local_root())
        drive = state['drive'] = Drive(root, backend)
        for p, nd in NODES:
            if p not in st0:
                continue
            u = drive.uri(p)
            if nd[0] == 'd':
                u.mkdir()
            elif nd[0] == 'f':
                with u.open('wb') as f:
                    f.write(nd[1])
            else:
                drive.uri(nd[1]).symlink(u)
        results = state['results'] = [[] for _ in threads]
        common_uris = {p: drive.uri(p) for t in threads for w in words(t) for p in w[1:]}

        def program(tid, ws):
            uris = common_uris if meet == 'shared' else {p: drive.uri(p) for w in ws for p in w[1:]}

            def go():
                for w in ws:
                    try:
                        results[tid].append(perform(drive, uris, w, tid))
                    except (OSError, ns.PathError, AssertionError):
                        results[tid].append('no')
            return go
        return [program(i, words(t)) for i, t in enumerate(threads)]

    def check(r):
        ctx.count('transitions', r.npoints)
        how = {'threads': list(threads), 'backend': backend, 'schedule': [p[1] for p in r.points if len(p[0]) > 1][:400], 'results': state['results']}
        require(not r.deadlock, 'threads wait for each other for ever', **how)
        require(not r.abandoned, 'the threads did not come to an end', **how)
        for t in r.threads:
            require(t.error is None, 'a thread failed: %r' % t.error, **how)
        final = state['drive'].observe()
        res = tuple(tuple(x) for x in state['results'])
        got = (res, tuple(sorted(final.items())))
        ctx.see('states', (threads, got))
        if got not in allowed:
            require(any(a[0] == res for a in allowed), 'operations of threads had results they have in no order one after the other',
                    tree=show_state(final), possible=sorted({repr(a[0]) for a in allowed}), **how)
            require(False, 'operations of threads left a tree they leave in no order one after the other', tree=show_state(final),
                    possible=[show_state(dict(a[1])) for a in allowed if a[0] == res], **how)
    shared = meet == 'shared'
    n = sched.schedules(make, bound, check, shard=shard, private=None if shared else (ns.fs.BaseUri, ns.base.simpleuri.UriParse),
                        atomic=ATOMIC[:1] if shared else ATOMIC)
    ctx.count('traces', n)
    ctx.sample({'threads': threads, 'backend': backend, 'schedules of this part': n})
