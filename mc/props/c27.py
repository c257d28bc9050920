"""C27: Windows paths convert without loss."""
from itertools import product

from ..common import load, require

DRIVES = ('C:', 'c:', 'z:', '', '\\\\')       # the last one: a path on a server
COMPS = ('a', 'bc', '.h', 'a b', 'c#d', '\u00e4', 'x.y', 'C', 'Program Files (x86)', '%TEMP%', '..h')
NAMES = ('x', '.h', 'a.b', 'x y', 'c#d', '\u00e4', 'C', 'x.tar.gz', '%1')
BOUNDS = {
    'quick': 'all paths of up to 3 out of %d components below %d roots and relative, separators mixed in all ways for 2 components, joined with %d names and their pairs' % (
        len(COMPS), len(DRIVES), len(NAMES)),
    'thorough': 'all paths of up to 4 components',
}
ASSUMPTIONS = ['the library runs on Linux: paths are converted, not used; a path from the root without a drive has more than one letter in its first component '
               '(otherwise it is that of a drive)']


def cases(ctx):
    for root in DRIVES + ('rel', '.'):
        for n in range(0, 5 if ctx.thorough else 4):
            for comps in product(COMPS, repeat=n):
                if root in ('', '\\\\') and (not comps or len(comps[0]) == 1):
                    continue
                if root == 'rel' and not comps:
                    continue
                yield (root, comps)


def spelled(root, comps, sep='\\'):
    if root == 'rel':
        return sep.join(comps)
    if root == '.':
        return sep.join(('.',) + comps)
    if root == '\\\\':
        return sep + sep + sep.join(comps)
    return root + sep + sep.join(comps)


def slashed(root, comps):
    "the same, as this library writes it"
    if root == 'rel':
        return '/'.join(comps)
    if root == '.':
        return '/'.join(('.',) + comps)
    if root == '\\\\':
        return '//' + '/'.join(comps)
    return ('/' + root[0] if root else '') + '/' + '/'.join(comps)


def shown(root, comps):
    if root == 'rel':
        return '.\\' + '\\'.join(comps)
    return spelled(root, comps)


def components(path):
    return [x for x in path.split('/') if x not in ('', '.')]


def denotes(u, root, comps, what):
    require(u.path.rstrip('\\') == shown(root, comps).rstrip('\\') or root == '.' and not comps and u.path in ('.', '.\\') or
            root == 'rel' and not comps and u.path in ('.', '.\\'),
            'path is given back changed', path=what, got=u.path, expected=shown(root, comps))
    if root.endswith(':') and not comps:
        require(u.path == root + '\\', 'the root of the drive is given back changed', path=what, got=u.path)
    require(str(u) == u.path, 'not printed as a path', path=what, got=str(u))
    want = ([root[0]] if root.endswith(':') else []) + list(comps)
    require(components(u.unipath) == want, 'the components have changed', path=what, got=components(u.unipath), expected=want)
    require(u.sep == '\\', 'the separator is lost', path=what)
    require(u.is_absolute == (root not in ('rel', '.')), 'is_absolute is wrong', path=what, got=u.is_absolute)


def run(ctx, case):
    ns = load()
    root, comps = case
    text = spelled(root, comps)
    u = ns.URI(text, sep='\\')
    denotes(u, root, comps, text)
    plain = ns.URI(slashed(root, comps))
    require(u == plain, 'not equal to the path with slashes', path=text, other=str(plain))
    require(ns.URI(text) == plain and ns.URI(text).path == plain.path, 'backslashes without sep mean something else', path=text, got=ns.URI(text).path, expected=plain.path)
    v = ns.URI(u.path, sep='\\')
    require(v == u and v.path == u.path, 'the path read again is another one', path=text, got=v.path)
    denotes(ns.URI(u), root, comps, 'a copy of ' + text)
    if root not in ('rel', '.'):
        # already converted
        denotes(ns.URI(slashed(root, comps), sep='\\'), root, comps, slashed(root, comps))
        denotes(ns.URI('file://' + slashed(root, comps), sep='\\'), root, comps, slashed(root, comps))
    if comps:
        denotes(ns.URI(text + '\\', sep='\\'), root, comps, text + '\\')
        require(u.basename() == comps[-1] == u.last(), 'basename or last is wrong', path=text, got=(u.basename(), u.last()))
        head, tail = u.split()
        require(tail == comps[-1], 'split is wrong', path=text, got=tail)
        if root.endswith(':') or root == '.' or len(comps) > 1:
            denotes(head, root, comps[:-1], 'the directory of ' + text)
            denotes(u.dirname(), root, comps[:-1], 'the directory of ' + text)
            require(head == plain.dirname(), 'the directory is not that of the path with slashes', path=text)
        if len(comps) > 2 or len(comps) == 2 and root.endswith(':'):
            denotes(u.directory(2), root, comps[:-2], 'directory(2) of ' + text)
    elif root.endswith(':'):
        denotes(u, root, (), text)
    # joining
    for name in NAMES:
        for j in (u / name, u.join(name), u / ('\\' + name)) if len(comps) < 3 else (u / name,):
            denotes(j, root, comps + (name,), '%s / %s' % (text, name))
            require(j == plain / name, 'joined to something else than with slashes', path=text, name=name)
        if len(comps) < 3:
            for other in NAMES:
                for j in (u / (name + '\\' + other), u.join(name, other), u / (name + '/' + other), u.join(name + '\\', '\\' + other), (u / name) / other):
                    denotes(j, root, comps + (name, other), '%s / %s / %s' % (text, name, other))
                ctx.count('transitions', 5)
        s = (u / name) + '.s'
        denotes(s, root, comps + (name + '.s',), '%s / %s + .s' % (text, name))
        require((u / name).dirname() == u or not comps and (u / name).dirname().path.rstrip('\\') == u.path.rstrip('\\') or
                (u / name).dirname().path == u.path.rstrip('\\'), 'the directory of a join is another one',
                path=text, name=name, got=(u / name).dirname().path)
    # all mixtures of separators
    if len(comps) == 2:
        for seps in product('\\/', repeat=3):
            first = spelled(root, (), seps[0]) if root not in ('rel', '\\\\') else seps[0] * 2 if root == '\\\\' else ''
            if root == '.':
                first = '.' + seps[0]
            denotes(ns.URI(first + comps[0] + seps[1] + comps[1], sep='\\'), root, comps, first + comps[0] + seps[1] + comps[1])
    ctx.see('states', case)
    ctx.count('traces')
