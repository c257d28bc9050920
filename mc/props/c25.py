"""C25: derived URIs reach the same backend as the URI they come from."""
from itertools import product

from ..common import load, require

# (text, keyword extras); the parameters the backend must be created with
AUTH = ['', 'h', 'h:1', 'h:', 'u:@h:', 'u@h', 'u:p@h', 'u:p:q@h:1', '((memory:///a.zip))', '((zip://((rec2://u@h/o.zip?k=v))/i.zip))', '((/a b#c.zip))']
PARAMS = [({}, {}), ({'k': 'v'}, {}), ({}, {'k': 'v'}), ({'k': 'a b&c=d/e'}, {'l': 'w'}), ({'k': 'q'}, {'k': 'e'}), ({'username': 'n'}, {}),
          ({}, {'username': 'n'}), ({}, {'username': 'n', 'password': 's'}), ({'username': 'n', 'password': 's'}, {}), ({'password': 's'}, {'username': 'n'}),
          ({'username': 'n'}, {'password': 's', 'l': 'w'}), ({'sep': 'x', 'uri': 'y'}, {'path': 'z'})]
PATHS = ('/a/b', '/', '/a b/c#d', '/.h')
STEPS = ('join', 'join2', 'join_slash', 'dirname', 'split', 'directory2', 'add', 'copy', 'copyclass', 'glob', 'walk', 'walk_dir', 'add_nothing', 'hash')
BOUNDS = {
    'quick': 'all chains of 2 of %d derivations (of 3 of the 11 that differ) from %d authorities x %d sets of parameters (x 4 paths for chains of 2), backends rec, http and https, '
             'also with credentials, query, extras and scheme set afterwards' % (len(STEPS), len(AUTH), len(PARAMS)),
    'thorough': 'all chains of 4',
}
ASSUMPTIONS = ['glob and walk are those of a backend that lists two names per directory down to a depth of 4']


def cases(ctx):
    for scheme in ('rec', 'http', 'https'):
        for a in range(len(AUTH)):
            if scheme != 'rec' and (AUTH[a] == '' or AUTH[a].startswith('((')):
                continue
            for p in range(len(PARAMS)):
                for path in range(len(PATHS)):
                    if scheme != 'rec' and '#' in PATHS[path]:
                        continue
                    yield (scheme, a, p, path)


def start(ns, scheme, a, p, path):
    from urllib.parse import urlencode
    query, kw = PARAMS[p]
    text = scheme + '://' + AUTH[a] + PATHS[path] + ('?' + urlencode(query) if query else '')
    return text, ns.URI(text, **dict(kw))


def derive(ns, u, step):
    if step == 'join':
        return [u / 'x']
    if step == 'join2':
        return [u.join('x', 'y.z')]
    if step == 'join_slash':
        return [u / 'x/']
    if step == 'hash':
        return [u / ('c#d' if u.scheme == 'rec' else 'c;d')]
    if step == 'dirname':
        return [u.dirname()]
    if step == 'split':
        return [u.split()[0]]
    if step == 'directory2':
        return [u.directory(2)]
    if step == 'add':
        return [u + '.s']
    if step == 'add_nothing':
        return [u + '']
    if step == 'copy':
        return [ns.URI(u)]
    if step == 'copyclass':
        return [type(u)(u)]
    if step == 'glob':
        return u.glob('n*')
    if step == 'walk':
        return [root for root, dirs, files in u.walk()][-1:]
    if step == 'walk_dir':
        return [root / d for root, dirs, files in u.walk(topdown=False) for d in dirs][:1]


def run(ctx, case):
    ns = load()
    rec = ns.plug.RecordingFileSystem
    scheme, a, p, path = case
    n = (4 if ctx.thorough else 3) if path == 0 else 2
    text, u = start(ns, *case)
    ns.REG.cleanup(force=True)
    del rec.created[:], rec.calls[:]
    conn = u.get_connection()
    # the parameters are those that were written
    auth = AUTH[a]
    query, kw = PARAMS[p]
    if scheme != 'rec':
        query = {}
    want = {}
    if auth.startswith('(('):
        want['vpath_connector'] = auth[2:-2]
    elif auth:
        info, at, host = auth.rpartition('@')
        if at:
            user, colon, pw = info.partition(':')
            want['username'] = user
            if pw:
                want['password'] = pw
        host, _, port = host.partition(':')
        want['hostname'] = host
        if port:
            want['port'] = 1
    for d in (dict(PARAMS[p][0]), dict(kw)):
        for k in ('username', 'password'):
            # what is in the authority wins, then keywords
            if k in d and (k not in want or d is not PARAMS[p][0] and (k in PARAMS[p][0]) and k not in auth_given(auth)):
                want[k] = d[k]
    extras = dict(kw)
    extras.update(query)
    for k in ('username', 'password'):
        extras.pop(k, None)
    got = {k: getattr(conn, k) for k in ('vpath_connector', 'username', 'password', 'hostname', 'port') if getattr(conn, k)}
    require(got == want and conn.extras == extras, 'the backend was created with other parameters', uri=text, kw=kw, got=[got, conn.extras], expected=[want, extras])
    mark = str(ns.URI(scheme + '://' + auth + '/@@', **dict(kw)))
    prefix = mark[:mark.index('/@@')]
    require(str(u).startswith(prefix + '/'), 'the printed form lacks the authority', uri=text, got=str(u), expected=prefix)
    for chain in product([s for s in STEPS if n < 3 or s not in ('copyclass', 'add_nothing', 'split')], repeat=n):
        v = u
        done = []
        for step in chain:
            nxt = derive(ns, v, step)
            done.append(step)
            for w in nxt:
                # the same connection, for a copy of the key as well as for an operation
                require(w.get_connection() is conn, 'a derived URI has another connection', uri=text, kw=kw, chain=done, derived=str(w),
                        got=[w._key(), w._extras()])
                require(type(w) is type(u) and w.sep == u.sep, 'a derived URI is of another kind', uri=text, chain=done)
                require(str(w).startswith(prefix + '/'), 'a derived URI is printed with another authority', uri=text, chain=done, got=str(w), expected=prefix)
            if not nxt:
                break
            v = nxt[0]
        ctx.count('transitions', len(done))
        ctx.count('traces')
    require(u.exists() and rec.calls[-1][0] is conn, 'the operation reached another backend', uri=text)
    require(len(rec.created) == 1, 'more than one connection was created', uri=text, n=len(rec.created))
    ctx.see('states', (text, sorted(kw.items())))
    if scheme == 'rec':
        own_query(ctx, ns, case, text)
    own_credentials(ctx, ns, case, text)
    own_extras(ctx, ns, case, text)
    other_sep(ctx, ns, case, text)
    if scheme == 'rec':
        own_scheme(ctx, ns, case, text)


def auth_given(auth):
    info, at, _ = auth.rpartition('@')
    if not at:
        return ()
    return ('username', 'password') if ':' in info else ('username',)


def own_query(ctx, ns, case, text):
    "the query of one URI belongs to it alone"
    for step in STEPS:
        for changed in ('derived', 'origin'):
            ns.REG.cleanup(force=True)
            u = start(ns, *case)[1]
            ds = derive(ns, u, step)
            if not ds:
                continue
            w = ds[0]
            conn = u.get_connection()
            uq, wq = dict(u.query), dict(w.query)
            (w if changed == 'derived' else u).query['tag'] = 'changed'
            other = u if changed == 'derived' else w
            mine = w if changed == 'derived' else u
            require(dict(other.query) == (uq if changed == 'derived' else wq), 'changing the query of one URI changed that of another', uri=text, step=step, changed=changed)
            require(other.get_connection() is conn, 'changing the query of one URI changed the connection of another', uri=text, step=step, changed=changed)
            new = mine.get_connection()
            require(new is not conn and new.extras.get('tag') == 'changed', 'a changed query has no effect', uri=text, step=step, changed=changed)
            # and what is derived from it then has it
            for step2 in STEPS:
                for x in derive(ns, mine, step2):
                    require(x.get_connection() is new, 'a changed query does not carry over', uri=text, steps=[step, step2], changed=changed, derived=str(x))
            ctx.count('transitions', len(STEPS))
    ctx.count('traces')


def own_credentials(ctx, ns, case, text):
    for step in STEPS:
        ns.REG.cleanup(force=True)
        u = start(ns, *case)[1]
        u.username, u.password = 'set', 'later'
        conn = u.get_connection()
        require((conn.username, conn.password) == ('set', 'later'), 'credentials that were set have no effect', uri=text)
        for w in derive(ns, u, step):
            require(w.get_connection() is conn, 'credentials that were set do not carry over', uri=text, step=step, derived=str(w), got=w._key())
            w.username = 'third'
            require(u.get_connection() is conn and w.get_connection().username == 'third', 'credentials are shared', uri=text, step=step)
        ctx.count('transitions')


def own_extras(ctx, ns, case, text):
    "the extras of one URI belong to it alone"
    for step in STEPS:
        for changed in ('derived', 'origin'):
            for late in (False, True):
                ns.REG.cleanup(force=True)
                u = start(ns, *case)[1]
                if late:
                    u.extras['late'] = 'before'
                conn = u.get_connection()
                ds = derive(ns, u, step)
                if not ds:
                    continue
                mine, other = (ds[0], u) if changed == 'derived' else (u, ds[0])
                before = dict(other.extras)
                mine.extras['late'] = 'changed'
                require(dict(other.extras) == before and other.get_connection() is conn, 'changing the extras of one URI changed another', uri=text, step=step, changed=changed)
                new = mine.get_connection()
                require(new is not conn and new.extras.get('late') == 'changed', 'changed extras have no effect', uri=text, step=step, changed=changed)
                for step2 in STEPS:
                    for x in derive(ns, mine, step2):
                        require(x.get_connection() is new, 'changed extras do not carry over', uri=text, steps=[step, step2], changed=changed, derived=str(x))
                ctx.count('transitions', len(STEPS))


def other_sep(ctx, ns, case, text):
    "the separator to show paths with carries over as well"
    kw = PARAMS[case[2]][1]
    for sep in ('\\', ':'):
        ns.REG.cleanup(force=True)
        u = ns.URI(text, sep=sep, **dict(kw))
        conn = u.get_connection()
        for step in STEPS:
            for v in derive(ns, u, step):
                for step2 in ('copy', 'copyclass', 'join', 'dirname', 'add'):
                    for w in derive(ns, v, step2):
                        require((v.sep, w.sep) == (sep, sep), 'the separator does not carry over', uri=text, steps=[step, step2], got=[v.sep, w.sep])
                        require(w.get_connection() is conn, 'a URI with another separator leads elsewhere', uri=text, steps=[step, step2], got=w.path)
                        ctx.count('transitions')


def own_scheme(ctx, ns, case, text):
    "a scheme that was set holds for what is derived, and for nothing else"
    for first in STEPS:
        for changed in ('derived', 'origin'):
            ns.REG.cleanup(force=True)
            u = start(ns, *case)[1]
            conn = u.get_connection()
            ds = derive(ns, u, first)
            if not ds:
                continue
            mine, other = (ds[0], u) if changed == 'derived' else (u, ds[0])
            shown = str(mine)
            mine.scheme = 'rec2'
            new = mine.get_connection()
            what = dict(uri=text, steps=[first], changed=changed)
            require(other.scheme == 'rec' and other.get_connection() is conn, 'setting the scheme of one URI changed another', **what)
            require(mine.scheme == 'rec2' and new is not conn, 'a scheme that was set has no effect', **what)
            require(str(mine) == 'rec2' + shown[3:], 'a scheme that was set is not shown', got=str(mine), **what)
            for step2 in STEPS:
                for x in derive(ns, mine, step2):
                    require(x.scheme == 'rec2' and x.get_connection() is new, 'a scheme that was set does not carry over', then=step2, derived=str(x), **what)
                    require(str(x).startswith('rec2:'), 'a scheme that was set is not shown', got=str(x), then=step2, **what)
            ctx.count('transitions', len(STEPS))
