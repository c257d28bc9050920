"""C37: threads that use one zip archive at the same time do not disturb each other."""
import io
import sys
import zipfile

from .. import sched
from ..common import load, require

BOUNDS = {
    'quick': '49 pairs and triples of operations (read, write, append, update, list, isfile, isdir, walk, glob, copy, md5, as well as handles open meanwhile) of threads on one archive '
             'on disk, the shorter ones also in memory and some in an archive in another archive, 1 preemption (2 for three pairs on disk)',
    'thorough': 'all of these in all places, 2 preemptions for pairs of short operations on disk and in memory',
}
ASSUMPTIONS = ['switches between threads happen between bytecodes (the GIL); code below /repo/abl is preempted, the standard library is not; what the memory file '
               'system does inside of it is the business of C33',
               'all threads reach the archive through equal connection parameters']
CASE_TIMEOUT = 800
# besides, functions of strings only
ATOMIC = ('ConnectionRegistry.', 'with_connection', 'Memory', 'content_item', 'compare_p', 'BaseUri.', 'relative_re', 'UriParse', 'split_netloc', 'URI', 'normalize_uri')

START = (('a', b'A' * 5), ('d/b', b'B\nb'), ('other/x', b''))
CHUNK = {0: b'one' * 3, 1: b'two' * 40, 2: b'\0thr'}
# a thread is a row of operations; 'open' and 'close' are the two halves of a write
GROUPS = [
    ('read a', 'read a'), ('read a', 'read d/b'), ('read a', 'write n'), ('read a', 'write a'), ('read a', 'append a'), ('read a', 'list d'), ('read n', 'write n'),
    ('write n', 'write m'), ('write n', 'write n'), ('write n', 'append d/b'), ('append a', 'append d/b'), ('append n', 'append m'), ('append a', 'write n'),
    ('update a', 'write n'), ('update a', 'read d/b'), ('update a', 'update d/b'),
    ('list d', 'write d/n'), ('list .', 'write e/n'), ('isfile a', 'write n'), ('isfile n', 'write n'), ('isdir e', 'write e/n'), ('exists d/b', 'append d/b'), ('list d', 'list .'),
    ('list d', 'isdir d'), ('isfile a', 'isdir d'), ('list zz', 'write zz/y'),
    ('walk .', 'write d/n'), ('walk .', 'read a'), ('glob d', 'write n'), ('copy a n', 'read d/b'), ('copy a n', 'write m'), ('copy a n', 'copy d/b m'), ('md5 a', 'write n'), ('md5 a', 'read a'),
    ('open n close', 'write m'), ('open n close', 'open m close'), ('open n close', 'read a'), ('write n read n', 'write m read m'), ('write n read a', 'list d'),
    ('read a', 'read d/b', 'write n'), ('isfile n', 'list d', 'read d/b'), ('write n', 'read n', 'isfile n'),
]
FRESH = [('write n', 'write m'), ('write n', 'isfile n'), ('append n', 'write m'), ('read n', 'write n'), ('list .', 'write n'), ('write n', 'write n')]
LONG = {'walk', 'copy', 'glob'}
DEEP = [('read a', 'read a'), ('list d', 'isdir d'), ('read a', 'read d/b')]
NESTED = [('read a', 'read d/b'), ('list d', 'write d/n'), ('open n close', 'open m close'), ('write n', 'isfile n'), ('read n', 'write n')]
PLACES = ('local', 'memory', 'zip in memory')


def setup(ctx):
    sched.install()
    sched.Run.START = 1.7e9         # archives know of no time before 1980
    load()
    sys.stderr = open('/dev/null', 'w')


def words(text):
    out = []
    for x in text.split():
        if x in VERBS:
            out.append((x,))
        else:
            out[-1] = out[-1] + (x,)
    return out


VERBS = ('read', 'write', 'append', 'update', 'list', 'isfile', 'isdir', 'exists', 'walk', 'glob', 'copy', 'md5', 'open', 'close')


def cases(ctx):
    for fresh, groups in ((False, GROUPS), (True, FRESH)):
        for place in PLACES:
            for g in groups:
                verbs = {w[0] for t in g for w in words(t)}
                if not ctx.thorough and (place == 'zip in memory' and g not in NESTED or place == 'memory' and (len(g) > 2 or verbs & LONG)):
                    continue
                bound = 2 if place == 'local' and g in DEEP else 1
                if ctx.thorough and len(g) == 2 and not verbs & LONG and place != 'zip in memory':
                    bound = 2
                n = (1 if g in DEEP else 4 if len(g) == 2 else 16) * (8 if bound == 2 else 1)
                for k in range(n):
                    yield (place, g, fresh, bound, (k, n))


# -- what the operations mean: st is a dict name -> content

def isdir(st, p):
    return p == '.' or any(x.startswith(p + '/') for x in st)


def children(st, p):
    pre = '' if p == '.' else p + '/'
    return tuple(sorted({x[len(pre):].split('/')[0] for x in st if x.startswith(pre)}))


def atoms(w, tid):
    verb, p, data = w[0], w[1] if len(w) > 1 else None, CHUNK[tid]

    def read(st, mine):
        return ('ok', st[p]) if p in st else 'no'

    def opened(st, mine):
        mine['to'] = p
        mine['data'] = b''

    def reopened(st, mine):
        mine['to'] = p
        mine['data'] = st.get(p, b'')

    def updated(st, mine):
        if p not in st:
            return 'no'
        mine['to'] = p
        mine['data'] = b'U' + st[p][1:]

    def commit(st, mine):
        st[mine['to']] = mine['data'] if verb == 'update' else mine['data'] + data
        return ('ok', None)

    def copied(st, mine):
        if p not in st:
            return 'no'
        mine['data'] = st[p]
        mine['to'] = w[2]

    def commit_copy(st, mine):
        st[mine['to']] = mine['data']
        return ('ok', None)

    def walk_step(st, mine):
        todo = mine.setdefault('todo', ('.',))
        if not todo:
            return
        top = todo[0]
        names = children(st, top)
        full = {n: n if top == '.' else top + '/' + n for n in names}
        dirs = tuple(n for n in names if isdir(st, full[n]))
        mine['seen'] = mine.get('seen', ()) + ((top, dirs, tuple(n for n in names if n not in dirs)),)
        mine['todo'] = tuple(full[n] for n in dirs) + todo[1:]

    def walk_end(st, mine):
        while mine.get('todo'):
            walk_step(st, mine)
        return ('ok', mine.get('seen', ()))

    if verb in ('read', 'md5'):
        return [read]
    if verb == 'write':
        return [opened, commit]
    if verb == 'append':
        return [reopened, commit]
    if verb == 'update':
        return [updated, commit]
    if verb == 'open':
        def only_open(st, mine):
            opened(st, mine)
            return ('ok', None)
        return [only_open]
    if verb == 'close':
        return [commit]
    if verb in ('list', 'glob'):
        return [lambda st, mine: ('ok', children(st, p)) if isdir(st, p) else 'no']
    if verb == 'isfile':
        return [lambda st, mine: ('ok', p in st)]
    if verb == 'isdir':
        return [lambda st, mine: ('ok', isdir(st, p))]
    if verb == 'exists':
        return [lambda st, mine: ('ok', p in st or isdir(st, p))]
    if verb == 'copy':
        return [copied, commit_copy]
    if verb == 'walk':
        return [walk_step] * 4 + [walk_end]
    raise AssertionError(verb)


def outcomes(threads, start):
    progs = []
    for tid, t in enumerate(threads):
        p = []
        for n, w in enumerate(words(t)):
            ats = atoms(w, tid)
            p.extend((n, a, i == len(ats) - 1) for i, a in enumerate(ats))
        progs.append(p)
    seen, final = set(), set()
    todo = [(tuple(0 for _ in progs), tuple(() for _ in progs), tuple(() for _ in progs), tuple(sorted(start)))]
    while todo:
        item = todo.pop()
        if item in seen:
            continue
        seen.add(item)
        pos, mines, res, st = item
        done = True
        for t, p in enumerate(progs):
            if pos[t] >= len(p):
                continue
            done = False
            n, a, last = p[pos[t]]
            st2, mine = dict(st), dict(mines[t])
            r = a(st2, mine)
            npos = pos[t] + 1
            if r == 'no':
                while npos < len(p) and p[npos][0] == n:
                    npos += 1
            nres = res[t] + ((r,) if r == 'no' or last else ())
            todo.append((pos[:t] + (npos,) + pos[t + 1:], mines[:t] + (tuple(sorted(mine.items())),) + mines[t + 1:],
                         res[:t] + (nres,) + res[t + 1:], tuple(sorted(st2.items()))))
        if done:
            final.add((res, st))
    return final


def perform(root, uris, w, tid, mine):
    verb, u = w[0], uris[w[1]] if len(w) > 1 else None
    value = None
    if verb == 'read':
        with u.open('rb') as f:
            value = f.read(2) + f.read()
    elif verb == 'write':
        with u.open('wb') as f:
            f.write(CHUNK[tid])
    elif verb == 'append':
        with u.open('ab') as f:
            f.write(CHUNK[tid])
    elif verb == 'update':
        with u.open('r+b') as f:
            f.write(b'U')
    elif verb == 'open':
        mine['h'] = u.open('wb')
    elif verb == 'close':
        mine['h'].write(CHUNK[tid])
        mine['h'].close()
    elif verb == 'list':
        value = tuple(u.listdir())
    elif verb == 'glob':
        value = tuple(x.last() for x in u.glob('*'))
    elif verb in ('isfile', 'isdir', 'exists'):
        value = getattr(u, verb)()
    elif verb == 'copy':
        u.copy(uris[w[2]])
    elif verb == 'md5':
        import hashlib
        h = u.md5()
        for x in [c for _, c in START]:
            if hashlib.md5(x).hexdigest() == h:
                value = x
    elif verb == 'walk':
        value = tuple(('/'.join(x for x in r.path.split('/') if x) or '.', tuple(d), tuple(f)) for r, d, f in u.walk())
    else:
        raise AssertionError(verb)
    return ('ok', value)


def run(ctx, case):
    ns = load()
    place, threads, fresh, bound, shard = case
    start = () if fresh else START
    allowed = outcomes(threads, start)
    ctx.count('allowed', len(allowed))
    raw = io.BytesIO()
    with zipfile.ZipFile(raw, 'w') as z:
        for name, data in start:
            z.writestr(name, data)
    outer = io.BytesIO()
    with zipfile.ZipFile(outer, 'w') as z:
        z.writestr('sib', b'sibling')
        if not fresh:
            z.writestr('in.zip', raw.getvalue())
    state = {}

    def make():
        ns.REG.cleanup(force=True)
        if place == 'local':
            arch = ns.URI(ctx.local_root() + '/z.zip')
        else:
            arch = ns.URI('memory:///z.zip')
        if not fresh or place == 'zip in memory':
            with arch.open('wb') as f:
                f.write(outer.getvalue() if place == 'zip in memory' else raw.getvalue())
        if place == 'zip in memory':
            arch = ns.URI('zip://((%s))/in.zip' % arch)
        state['arch'] = arch
        root = 'zip://((%s))/' % arch
        results = state['results'] = [[] for _ in threads]

        def program(tid, ws):
            uris = {p: ns.URI(root if p == '.' else root + p) for w in ws for p in w[1:]}
            mine = {}

            def go():
                for w in ws:
                    try:
                        results[tid].append(perform(root, uris, w, tid, mine))
                    except (OSError, ns.PathError, AssertionError):
                        results[tid].append('no')
            return go
        return [program(i, words(t)) for i, t in enumerate(threads)]

    def check(r):
        ctx.count('transitions', r.npoints)
        how = {'threads': list(threads), 'archive': place, 'fresh': fresh, 'schedule': [p[1] for p in r.points if len(p[0]) > 1][:400], 'results': state['results']}
        require(not r.deadlock, 'threads wait for each other for ever', **how)
        require(not r.abandoned, 'the threads did not come to an end', **how)
        for t in r.threads:
            require(t.error is None, 'a thread failed: %r' % t.error, **how)
        final = {}
        arch = state['arch']
        if arch.exists():
            with arch.open('rb') as f:
                data = f.read()
            try:
                with zipfile.ZipFile(io.BytesIO(data)) as z:
                    bad = z.testzip()
                    for info in z.infolist():
                        final[info.filename.lstrip('/')] = z.read(info)
            except zipfile.BadZipFile as e:
                bad = e
            require(bad is None, 'the archive is damaged: %s' % bad, **how)
        res = tuple(tuple(x) for x in state['results'])
        got = (res, tuple(sorted(final.items())))
        ctx.see('states', (place, fresh, threads, got))
        if got not in allowed:
            require(any(a[0] == res for a in allowed), 'operations of threads had results they have in no order one after the other', archive_now=final,
                    possible=sorted({repr(a[0]) for a in allowed})[:20], **how)
            require(False, 'operations of threads left an archive they leave in no order one after the other', archive_now=final,
                    possible=[dict(a[1]) for a in allowed if a[0] == res], **how)
    n = sched.schedules(make, bound, check, shard=shard, private=(ns.fs.BaseUri, ns.base.simpleuri.UriParse), atomic=ATOMIC)
    ctx.count('traces', n)
    ctx.sample({'threads': threads, 'archive': place, 'schedules of this part': n})
