"""One model state spread over several backends: the first path component
chooses the root."""
from . import fsdrive as fd
from .common import load, require

PAIRS = {'mm': ('memory', 'memory'), 'll': ('local', 'local'), 'xx': ('local', 'local'), 'ml': ('memory', 'local'), 'lm': ('local', 'memory'),
         'm2': ('memory', 'memory2'), 'zm': ('zip', 'memory'), 'zl': ('zip', 'local'), 'mz': ('memory', 'zip'),
         'lz': ('local', 'zip'), 'zz': ('zip', 'zip'), 'z2': ('zip', 'zip2')}


class Mixed(fd.Drive):
    def __init__(self, ctx, pair):
        ns = load()
        ns.REG.cleanup(force=True)
        self.pair = pair
        self.name = '%s to %s' % PAIRS[pair]
        local = ctx.local_root() if any(k in ('local', 'zip', 'zip2') for k in PAIRS[pair]) else None
        self.roots = {}
        for name, kind in zip('SD', PAIRS[pair]):
            if kind == 'memory':
                u = ns.URI('memory:///') / name
            elif kind == 'memory2':
                u = ns.URI('memory:///%s?other=1' % name)
            elif kind == 'local':
                u = ns.URI(local) / name
            else:
                u = ns.URI('zip://((%s/%s.zip))/%s' % (local, kind, name))
            if kind not in ('zip', 'zip2'):
                u.mkdir()
            self.roots[name] = u
        self.same = PAIRS[pair][0] == PAIRS[pair][1]

    def uri(self, path):
        u = self.roots[path[0]]
        for comp in path[1:]:
            u = u / comp
        return u

    def target_of(self, link):
        t = link.readlink()
        for name, r in self.roots.items():
            if t.scheme == r.scheme and (t.path + '/').startswith(r.path + '/'):
                rest = t.path[len(r.path) + 1:]
                return (name,) + (tuple(rest.split('/')) if rest else ())
        return str(t)

    def build(self, nodes):
        for op in nodes:
            self._do(op)

    def observe(self, modes=True):
        st = {}
        for name, r in self.roots.items():
            st[(name,)] = ('d',)
            todo = [((name,), r)]
            if not r.isdir():
                continue
            while todo:
                p, u = todo.pop()
                names = u.listdir()
                require(len(names) == len(set(names)), '%s: listdir of %s repeats a name' % (self.name, fd.sp(p)), names=names)
                for n in names:
                    q, v = p + (n,), u / n
                    if v.islink():
                        st[q] = ('l', self.target_of(v))
                    elif v.isdir():
                        st[q] = ('d',)
                        todo.append((q, v))
                        require(len(st) < 300, '%s: the tree grew out of proportion' % self.name)
                    elif v.isfile():
                        with v.open('rb') as f:
                            c = f.read()
                        st[q] = ('f', c, v.info().mode & 0o111 if modes and v.scheme != 'zip' else 0)
                    else:
                        require(False, '%s: %s is listed but is no file, directory or link' % (self.name, fd.sp(q)))
        return st


def same(d, got, st, what, modes=True, **detail):
    if not modes:
        st = {p: (nd[:2] + (0,) if nd[0] == 'f' else nd) for p, nd in st.items()}
        got = {p: (nd[:2] + (0,) if nd[0] == 'f' else nd) for p, nd in got.items()}
    if got != st:
        diff = {fd.sp(p): [repr(got.get(p))[:200], repr(st.get(p))[:200]]
                for p in set(got) | set(st) if got.get(p) != st.get(p)}
        require(False, '%s: wrong tree after %s' % (d.name, what), got_vs_expected=diff, **detail)
