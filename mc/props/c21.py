"""C21: a zip archive keeps what is written to it, and is a real zip archive."""
import io
import zipfile
from itertools import product

from ..common import Violated, load, require

BOUNDS = {
    'quick': 'all histories of 3 steps out of 31 (write, append, update, read, handles open across steps, another tool) on archives in memory and on '
             'disk and of 2 steps on archives in archives; 9 contents x 9 contents; the archive read with zipfile after each history',
    'thorough': 'all histories of 4 steps in memory, of 3 elsewhere',
}
ASSUMPTIONS = ['no two writing handles are open on the same file at once; nobody else writes while a handle of this library commits']
NAMES = ('a', 'd/b', 'd/\u00fc x')
STEPS = ([(k, n) for k in ('write', 'append', 'update', 'read', 'openw', 'opena', 'openu', 'openr') for n in range(3)]
         + [('close', 0), ('put', 0), ('get', 0), ('text', 0), ('other', 0), ('other', 1), ('reconnect', 0)])
CONTENTS = [b'', b'x', b'PK\x05\x06' + b'\0' * 18, b'PK\x03\x04', b'\r\n\0\xff\r', bytes(range(256)) * 1024, b'line1\nline2', b'PK\x01\x02' * 50,
            b'\0' * 70000]
PLACES = ('memory', 'local', 'memory in memory', 'local in memory', 'local in local', 'three')


def cases(ctx):
    for place in PLACES:
        for c in range(len(CONTENTS)):
            yield ('content', place, c)
    for place in PLACES:
        for n in (3,):
            for first in range(len(STEPS)):
                for second in range(len(STEPS)):
                    yield ('hist', place, (first, second))


def length(ctx, place):
    if place == 'memory':
        return 4 if ctx.thorough else 3
    if place == 'local':
        return 3
    return 3 if ctx.thorough else 2


def setup(ctx):
    load()


def open_place(ctx, place):
    ns = load()
    ns.REG.cleanup(force=True)
    root = None
    if 'local' in place:
        root = ctx.local_root()
    outer = {'m': 'memory:///z.zip', 'l': '%s/z.zip' % root, 't': 'memory:///z.zip'}[place[0]]
    if place in ('memory', 'local'):
        text = outer
    else:
        text = 'zip://((%s))/in/i.zip' % outer
        with ns.URI('zip://((%s))/sibling' % outer).open('wb') as f:
            f.write(b'sibling')
        if place == 'three':
            text = 'zip://((%s))/in/j.zip' % text
    arch = ns.URI(text)
    return arch, ns.URI('zip://((%s))/' % text)


def outside_view(arch):
    "what another tool gets out of the archive: name -> content"
    if not arch.exists():
        return {}
    with arch.open('rb') as f:
        raw = f.read()
    out = {}
    with zipfile.ZipFile(io.BytesIO(raw)) as z:
        require(z.testzip() is None, 'the archive is damaged')
        for info in z.infolist():
            if not info.filename.endswith('/'):
                out[info.filename.lstrip('/')] = z.read(info)
    return out


def verify(ctx, ns, place, arch, root, model, hist):
    what = dict(history=[list(h) for h in hist], place=place)
    for n in NAMES + ('e', 'd/e'):
        u = root / n
        if n in model:
            require(u.isfile() and u.exists(), '%s is not there' % n, **what)
            with u.open('rb') as f:
                got = f.read()
            require(got == model[n], '%s has the wrong content' % n, got=got[:100], expected=model[n][:100], **what)
        else:
            require(not u.isfile(), '%s is there' % n, **what)
            try:
                u.open('rb')
            except (ns.FileDoesNotExistError, FileNotFoundError):
                pass
            else:
                require(False, 'opening the missing %s was not refused' % n, **what)
    got = outside_view(arch)
    require(got == model, 'another tool reads something else', got={k: v[:100] for k, v in got.items()},
            expected={k: v[:100] for k, v in model.items()}, **what)
    up = arch
    if 'in' in place or place == 'three':
        up = ns.URI(arch.vpath_connector)
        if place == 'three':
            up = ns.URI(up.vpath_connector)
        other = outside_view(up)
        require(other.get('sibling') == b'sibling', 'a file next to the inner archive is lost', **what)
        require(sorted(other) == (['in/i.zip'] if arch.exists() else []) + ['sibling'], 'wrong files in the outer archive',
                got=sorted(other), **what)


def run(ctx, case):
    if case[0] == 'content':
        return contents(ctx, *case[1:])
    _, place, start = case
    n = length(ctx, place)
    for rest in product(range(len(STEPS)), repeat=n - 2):
        history(ctx, place, [STEPS[i] for i in start + rest])


def contents(ctx, place, c):
    ns = load()
    for c2 in range(len(CONTENTS)):
        for how in ('close', 'with', 'flat'):
            arch, root = open_place(ctx, place)
            model = {}
            for i, k in enumerate((c, c2)):
                name = NAMES[i]
                if how == 'with':
                    with (root / name).open('wb') as f:
                        f.write(CONTENTS[k])
                else:
                    f = (root / name).open('wb')
                    f.write(CONTENTS[k][:3])
                    f.write(CONTENTS[k][3:])
                    f.close()
                    if how == 'flat':
                        f.close()
                model[name] = CONTENTS[k]
            with (root / NAMES[0]).open('ab') as f:
                f.write(CONTENTS[c2])
            model[NAMES[0]] += CONTENTS[c2]
            verify(ctx, ns, place, arch, root, model, [('contents', c, c2, how)])
            ctx.count('transitions', 3)
            ctx.count('traces')
        ctx.see('states', ('c', place, c, c2))


class Skip(Exception):
    pass


def history(ctx, place, steps):
    ns = load()
    if not steps:
        return
    arch, root = open_place(ctx, place)
    model, handles, hist = {}, [], []
    count = [0]
    # the same archive, spelled differently: another connection
    roots = [root, root]
    if place == 'local':
        roots[1] = ns.URI('zip://((file://%s))/' % arch.path)
    else:
        # a parameter of the connection, of no concern to the archive
        roots[1] = ns.URI('zip://((%s))/?mode=1' % arch)
        require(roots[1].get_connection() is not root.get_connection(), 'a connection is shared by URIs with different parameters')

    def data():
        count[0] += 1
        return b'<%d>' % count[0]

    def writer_on(n):
        return any(h[0] == 'w' and h[1] == n for h in handles)

    try:
        for i, (kind, k) in enumerate(steps):
            n = NAMES[k]
            root = roots[i % 2]
            hist.append((kind, n))
            if kind in ('write', 'append', 'update'):
                if writer_on(n):
                    raise Skip()
                mode = {'write': 'wb', 'append': 'ab', 'update': 'r+b'}[kind]
                d = data()
                if kind == 'update' and n not in model:
                    refused(ns, root / n, mode, hist, place)
                    continue
                f = (root / n).open(mode)
                if i % 2:
                    with f as g:
                        g.write(d)
                else:
                    f.write(d)
                    f.close()
                old = model.get(n, b'')
                model[n] = {'write': d, 'append': old + d, 'update': d + old[len(d):]}[kind]
            elif kind in ('read', 'text'):
                if n not in model:
                    refused(ns, root / n, 'rb' if kind == 'read' else None, hist, place)
                    continue
                with ((root / n).open('rb') if kind == 'read' else (root / n).open()) as f:
                    got = f.read()
                require(got == model[n], 'read something else', got=got, expected=model[n], history=hist, place=place)
            elif kind in ('openw', 'opena', 'openu', 'openr'):
                if kind != 'openr' and writer_on(n):
                    raise Skip()
                mode = {'openw': 'wb', 'opena': 'ab', 'openu': 'r+b', 'openr': 'rb'}[kind]
                if kind in ('openr', 'openu') and n not in model:
                    refused(ns, root / n, mode, hist, place)
                    continue
                old = model.get(n, b'')
                f = (root / n).open(mode)
                if kind == 'openr':
                    handles.append(['r', n, f, old])
                else:
                    handles.append(['w', n, f, {'openw': b'', 'opena': old, 'openu': old}[kind], len(old) if kind == 'opena' else 0])
            elif kind == 'put':
                ws = [h for h in handles if h[0] == 'w']
                if not ws:
                    raise Skip()
                h = ws[-1]
                put(h, data())
            elif kind == 'get':
                rs = [h for h in handles if h[0] == 'r']
                if not rs:
                    raise Skip()
                got = rs[0][2].read(2)
                require(got == rs[0][3][:2], 'a handle reads something else', got=got, expected=rs[0][3][:2], history=hist, place=place)
                rs[0][3] = rs[0][3][2:]
            elif kind == 'close':
                if not handles:
                    raise Skip()
                h = handles.pop(0)
                end_handle(h, model, data(), i, hist, place)
            elif kind == 'other':
                if place not in ('memory', 'local') or 'e' in model and k == 0 or 'd/e' in model and k == 1:
                    raise Skip()
                d = data()
                raw = b''
                if arch.exists():
                    with arch.open('rb') as f:
                        raw = f.read()
                buf = io.BytesIO(raw)
                with zipfile.ZipFile(buf, 'a' if raw else 'w', zipfile.ZIP_DEFLATED) as z:
                    if k == 1 and 'd/' not in z.namelist():
                        z.writestr('d/', b'')
                    z.writestr(('e', 'd/e')[k], d)
                with arch.open('wb') as f:
                    f.write(buf.getvalue())
                model[('e', 'd/e')[k]] = d
            elif kind == 'reconnect':
                if place != 'local':
                    raise Skip()
                ns.REG.cleanup(force=True)
                handles = [h for h in handles if h[0] == 'r']
            ctx.count('transitions')
        i = 0
        while handles:
            h = handles.pop()
            hist.append(('close', h[1]))
            end_handle(h, model, data(), i, hist, place)
            i += 1
        verify(ctx, ns, place, arch, root, model, hist)
    except Skip:
        ctx.count('skipped')
        return
    except (Violated, MemoryError):
        raise
    except Exception as e:
        raise Violated('%s: %s' % (type(e).__name__, e), history=hist, place=place)
    ctx.see('states', (place, sorted(model.items())))
    ctx.count('traces')
    ctx.sample({'place': place, 'history': hist})


def put(h, d):
    h[2].write(d)
    at = h[4]
    h[3] = h[3][:at] + d + h[3][at + len(d):]
    h[4] = at + len(d)


def end_handle(h, model, d, i, hist, place):
    if h[0] == 'r':
        got = h[2].read()
        require(got == h[3], 'a handle reads something else', got=got, expected=h[3], history=hist, place=place)
        h[2].close()
        return
    if i % 2:
        with h[2]:
            put(h, d)
    else:
        put(h, d)
        h[2].close()
    model[h[1]] = h[3]


def refused(ns, u, mode, hist, place):
    try:
        u.open(mode) if mode else u.open()
    except (ns.FileDoesNotExistError, FileNotFoundError):
        return
    require(False, 'opening a missing file was not refused', history=hist, place=place)
