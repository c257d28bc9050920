"""C28: relative, absolute and hidden paths denote the file they name."""
import os
from itertools import product

from ..common import load, require, wipe

COMPS = ('a', '.h', '..h', '...', 'a b', ' ', '#', 'a#b', '%41', '\u00e4', '~', '-', '((x))', '*', '[x]', 'a;b', '&=', '@', "'", 'ab:c', '.a.', '+', 'a\nb', '"', '$HOME', 'x((')
PREFIXES = ('', './', '../', '../../', 'abs', 'url', '../w/', './../w/', '././')
BOUNDS = {
    'quick': 'all paths of up to 2 out of %d components, and of 3 that differ, behind %d prefixes (absolute, relative, file://, up and down again), for files and '
             'directories, made by the operating system and by this library' % (len(COMPS), len(PREFIXES)),
    'thorough': 'all paths of up to 3 components',
}
ASSUMPTIONS = ['no "?" in names; no name is one letter and a colon; no backslashes']


def cases(ctx):
    for p in range(len(PREFIXES)):
        for c in COMPS:
            yield (p, (c,))
            for d in COMPS:
                yield (p, (c, d))
    if ctx.thorough:
        for c in product(COMPS, repeat=3):
            for p in range(len(PREFIXES)):
                yield (p, c)
    else:
        for i, c in enumerate(COMPS):
            for k in range(len(COMPS)):
                yield ((i + k) % len(PREFIXES), (c, COMPS[(i + k) % len(COMPS)], COMPS[(i * 3 + k * 2) % len(COMPS)]))
    yield ('bare',)


def base(ctx):
    top = ctx.local_root()
    w = os.path.join(top, 'v', 'w')
    os.makedirs(w)
    os.chdir(w)
    return top, w


def run(ctx, case):
    ns = load()
    top, w = base(ctx)
    try:
        if case[0] == 'bare':
            bare(ctx, ns, top, w)
        else:
            paths(ctx, ns, top, w, PREFIXES[case[0]], case[1])
    finally:
        os.chdir(ctx.scratch)


def paths(ctx, ns, top, w, prefix, comps):
    text = '/'.join(comps)
    if prefix == 'abs':
        start, text = top, top + '/' + text
    elif prefix == 'url':
        start, text = top, 'file://' + top + '/' + text
    else:
        start = os.path.normpath(os.path.join(w, prefix))
        text = prefix + text
    real = os.path.join(start, *comps)
    u = ns.URI(text)
    what = dict(path=text, got=u.path)
    require(u.is_absolute == (prefix in ('abs', 'url')), 'is_absolute is wrong', **what)
    require((u.exists(), u.isfile(), u.isdir(), u.islink()) == (False, False, False, False), 'something is there that is not', **what)
    # made by the system
    if len(comps) > 1:
        os.makedirs(os.path.dirname(real))
    with open(real, 'wb') as f:
        f.write(b'system')
    require((u.exists(), u.isfile(), u.isdir(), u.islink()) == (True, True, False, False), 'the file is not found', **what)
    with u.open('rb') as f:
        require(f.read() == b'system', 'another file is read', **what)
    require(u.basename() == comps[-1] and u.last() == comps[-1], 'basename or last is wrong', **what)
    # joined step by step, and all at once
    b = ns.URI(top if prefix in ('abs', 'url') else prefix or '.')
    j = b
    for c in comps:
        j = j / c
    for v in (j, b / '/'.join(comps), b.join(*comps), ns.URI(u), ns.URI(str(u)), ns.URI(u.path), u.dirname() / comps[-1]):
        require(os.path.samefile(v.path, real), 'a join leads elsewhere', path=text, joined=v.path)
        with v.open('rb') as f:
            require(f.read() == b'system', 'a join leads elsewhere', path=text, joined=v.path)
        require(v.is_absolute == u.is_absolute, 'is_absolute is wrong', path=text, joined=v.path)
    require(os.path.samefile(u.dirname().path, os.path.dirname(real)), 'the directory is another one', path=text, got=u.dirname().path)
    require([x for x in u.dirname().listdir() if x != 'v' and x != 'w'] == [comps[-1]], 'the directory does not list it', path=text, got=u.dirname().listdir())
    require(u.dirname().isdir() and u.dirname().is_absolute == u.is_absolute, 'the directory is none', **what)
    if len(comps) > 1:
        walked = [(root / n) for root, dirs, files in (b / comps[0]).walk() for n in files]
        require(len(walked) == 1 and os.path.samefile(walked[0].path, real), 'walk does not find it', path=text, got=[str(x) for x in walked])
    u.remove()
    require(not os.path.lexists(real), 'something else was removed', **what)
    # made by this library
    with u.open('wb') as f:
        f.write(b'library')
    require(open(real, 'rb').read() == b'library', 'something else was written', **what)
    (u.dirname() / 'zz').open('wb').close()
    u.copy(u + '2')
    require(open(real + '2', 'rb').read() == b'library', 'a name with suffix is another one', **what)
    (u + '2').move(u.dirname() / 'moved')
    require(sorted(x for x in os.listdir(os.path.dirname(real)) if x not in ('v', 'w')) == sorted([comps[-1], 'moved', 'zz']), 'files were put elsewhere', **what)
    u.remove()
    u.mkdir()
    require(os.path.isdir(real) and u.isdir(), 'another directory was made', **what)
    (u / 'in' / comps[0]).makedirs()
    require(os.path.isdir(os.path.join(real, 'in', comps[0])), 'other directories were made', **what)
    slash = ns.URI(text + '/')
    require(slash.isdir() and slash.listdir() == ['in'] and slash.last() == comps[-1], 'with a slash at the end it is another directory', **what)
    require(sorted(os.listdir(top)) == sorted({'v'} | ({comps[0]} if start == top else set())) or len(comps) == 1, 'something was left elsewhere', **what)
    ctx.count('transitions', 30)
    ctx.count('traces')
    ctx.see('states', text)


def bare(ctx, ns, top, w):
    open('f', 'w').close()
    open('../g', 'w').close()
    for text, real in (('.', w), ('./', w), ('', w), ('..', os.path.dirname(w)), ('../', os.path.dirname(w)), ('../..', top), ('./..', os.path.dirname(w)),
                       ('../w/.', w), ('./.', w), ('../w', w), (w, w), ('file://' + w, w), (w + '/..', os.path.dirname(w)), (w + '/.', w)):
        u = ns.URI(text)
        require(u.isdir() and os.path.samefile(u.path or '.', real), 'another directory', path=text, got=u.path)
        require(sorted(u.listdir()) == sorted(os.listdir(real)), 'another directory is listed', path=text)
        require(u.is_absolute == text.startswith(('/', 'file:')), 'is_absolute is wrong', path=text)
        for n in os.listdir(real):
            require(os.path.samefile((u / n).path, os.path.join(real, n)), 'a join leads elsewhere', path=text, name=n)
        (u / 'new').open('w').close()
        require(os.path.exists(os.path.join(real, 'new')), 'a join leads elsewhere', path=text)
        (u / 'new').remove()
        ctx.count('transitions')
    require(ns.URI('/').isdir() and ns.URI('/').is_absolute and ns.URI('file:///').path == '/', 'the root is none')
    ctx.count('traces')
