"""C36: the mtime of a file is the time of its last change."""
import os
import time
from itertools import product

from ..common import load, require

CHANGE = ['new', 'empty', 'append', 'text', 'chunks', 'update', 'shorter', 'longer', 'nothing left', 'by link', 'into the link', 'locked', 'again', 'late', 'append nothing before',
          'other backend', 'moved in']
KEEP = ['read', 'lines', 'md5', 'queries', 'update nothing', 'append nothing', 'lock', 'execute', 'mode', 'rename', 'rename directory', 'link', 'neighbour', 'refused', 'copy away',
        'replace link', 'end']
SET = ['copy', 'copy back', 'copystat', 'copystat of link', 'copy tree', 'copy into directory', 'asked', 'asked by link']
OPS = CHANGE + KEEP + SET
BOUNDS = {
    'quick': 'all histories of 2 out of %d operations on two files, a link, and a file in a directory (of 3 with the operations that change, copy or set something), memory and local; '
             'the mtimes of all files, which were long ago or in the future before, after each, asked in three ways' % len(OPS),
    'thorough': 'all histories of 3 of all operations, of 4 of those that change, copy or set something',
}
ASSUMPTIONS = ['truncating a file to the size it has, and writing nothing, is neither a change nor none', 'local mtimes are compared in seconds, as the library gives them']
ACTIVE = ['new', 'empty', 'append', 'update', 'shorter', 'longer', 'by link', 'again', 'late', 'other backend', 'moved in', 'read', 'rename', 'lock', 'refused'] + SET


def cases(ctx):
    for backend in ('memory', 'local'):
        for first in OPS:
            yield (backend, first, 3 if ctx.thorough else 2, 'all')
        for first in ACTIVE:
            for second in ACTIVE:
                yield (backend, first, second, 4 if ctx.thorough else 3)


def histories(case):
    backend, first, x, y = case
    if y == 'all':
        for rest in product(OPS, repeat=x - 1):
            yield (first,) + rest
    else:
        for rest in product(ACTIVE, repeat=y - 2):
            yield (first, x) + rest


def stamp(t):
    return t.timestamp() if hasattr(t, 'timestamp') else t


class World(object):
    def __init__(self, ctx, ns, backend, era):
        self.ns, self.backend, self.era = ns, backend, era
        if backend == 'memory':
            ns.REG.cleanup(force=True)
            self.root = ns.URI('memory:///')
        else:
            self.root = ns.URI(ctx.local_root())
        self.other = ns.URI('memory:///?another=1')
        if backend == 'local':
            ns.REG.cleanup(force=True)
        r = self.root
        (r / 'd').mkdir()
        self.u = {'a': r / 'a', 'b': r / 'b', 'x': r / 'd' / 'x'}
        self.link = r / 'l'
        for i, n in enumerate('abx'):
            with self.u[n].open('wb') as f:
                f.write(n.encode() * 6)
        self.u['a'].symlink(self.link)
        with (self.other / 'o').open('wb') as f:
            f.write(b'from there')
        self.late = self.u['b'].open('ab')
        self.n = 0
        self.want = {}
        for n in 'abx':
            self.age(n)

    def age(self, name):
        "an mtime of long ago or of a time to come, that nothing else has"
        self.n += 1
        future = {'past': False, 'future': True, 'both': self.n % 2}[self.era]
        t = (4000000000 if future else 1000000000) + 1000 * self.n
        if self.backend == 'memory':
            t += .25
            self.u[name].info(dict(mtime=t))
        else:
            os.utime(self.u[name].path, (t - 1000000, t))
        self.want[name] = t

    def put(self, name, data, mode='wb'):
        with (name if not isinstance(name, str) else self.u[name]).open(mode) as f:
            f.write(data)

    def do(self, op):
        "-> the files whose content was changed"
        u, r, link, ns = self.u, self.root, self.link, self.ns
        if op == 'new':
            self.put('a', b'n%d' % self.n)
        elif op == 'empty':
            self.put('b', b'something')
            self.age('b')
            u['b'].open('wb').close()
            return 'b'
        elif op == 'append':
            self.put('a', b'+', 'ab')
        elif op == 'text':
            self.put('a', u'\u00e4', 'a')
        elif op == 'chunks':
            with u['x'].open('wb') as f:
                for _ in range(3):
                    f.write(b'1')
            return 'x'
        elif op == 'update':
            with u['a'].open('r+b') as f:
                f.seek(1)
                f.write(b'!')
        elif op == 'shorter':
            self.put('a', b'0123456789')
            self.age('a')
            with u['a'].open('r+b') as f:
                f.truncate(3)
        elif op == 'longer':
            with u['a'].open('r+b') as f:
                f.truncate(40 + self.n)
        elif op == 'nothing left':
            self.put('a', b'0123456789')
            self.age('a')
            with u['a'].open('r+b') as f:
                f.truncate(0)
        elif op == 'by link':
            self.put(link, b'by link')
        elif op == 'into the link':
            (self.other / 'o').copy(link)
        elif op == 'locked':
            with u['a'].lock() as f:
                f.write('locked')
        elif op == 'again':
            u['x'].remove()
            self.put('x', b'again')
            return 'x'
        elif op == 'late':
            self.late.write(b'late')
            self.late.flush()
            return 'b'
        elif op == 'append nothing before':
            h = u['a'].open('ab')
            self.put('a', b'x', 'ab')
            h.close()
        elif op == 'other backend':
            (self.other / 'o').copy(u['a'])
        elif op == 'moved in':
            self.put(self.other / 'm', b'moved in')
            (self.other / 'm').move(u['a'])
        # these change no content
        elif op == 'read':
            for n in 'abx':
                with u[n].open('rb') as f:
                    f.read()
            return ''
        elif op == 'lines':
            with u['a'].open('rb') as f:
                list(f)
                f.seek(0)
                f.readline()
                f.tell()
            return ''
        elif op == 'md5':
            for n in 'abx':
                u[n].md5()
            link.md5()
            return ''
        elif op == 'queries':
            for v in [link, r, r / 'd', r / 'missing'] + list(u.values()):
                v.exists(), v.isfile(), v.isdir(), v.islink(), v.glob('*') if v.isdir() else v.isdir()
                if v.exists():
                    v.info(), v.isexec(), v.info(followlinks=False)
            link.readlink()
            for _ in r.walk():
                pass
            return ''
        elif op == 'update nothing':
            with u['a'].open('r+b') as f:
                f.seek(2)
                f.read(1)
            return ''
        elif op == 'append nothing':
            for v in (u['a'], u['b'], link):
                with v.open('ab'):
                    pass
            return ''
        elif op == 'lock':
            with u['a'].lock(), link.lock() if self.backend == 'never' else u['x'].lock(fail_on_lock=True):
                pass
            return ''
        elif op == 'execute':
            u['a'].set_exec(0o111)
            link.set_exec(0o100)
            return ''
        elif op == 'mode':
            u['a'].info(dict(mode=0o640))
            link.info(dict(mode=0o644))
            return ''
        elif op == 'rename':
            u['a'].move(r / 'r')
            require(stamp((r / 'r').mtime()) == self.want['a'], 'the mtime of a renamed file is another one', got=stamp((r / 'r').mtime()), expected=self.want['a'])
            (r / 'r').move(u['a'])
            return ''
        elif op == 'rename directory':
            (r / 'd').move(r / 'e')
            require(stamp((r / 'e' / 'x').mtime()) == self.want['x'], 'the mtime in a renamed directory is another one')
            (r / 'e').move(r / 'd')
            return ''
        elif op == 'link':
            u['b'].symlink(r / 'k')
            (r / 'k').move(r / 'k2')
            (r / 'k2').remove()
            return ''
        elif op == 'neighbour':
            self.put(r / 'n', b'1')
            self.put(r / 'd' / 'n', b'1')
            (r / 'n').set_exec(0o111)
            (r / 'n').remove()
            (r / 'd' / 'n').remove()
            return ''
        elif op == 'refused':
            for f in (lambda: u['a'].mkdir(), lambda: (u['a'] / 'y').open('wb'), lambda: u['b'].symlink(u['a']), lambda: u['a'].copy(link), lambda: (r / 'd').remove(),
                      lambda: u['a'].move(link / 'y'), lambda: u['a'].open('rb').write(b'x')):
                try:
                    f()
                except (OSError, AssertionError, ns.PathError):
                    continue
                require(False, 'what cannot be done was done')
            return ''
        elif op == 'copy away':
            u['a'].copy(self.other / 'away')
            (r / 'd').copy(self.other / 'tree', recursive=True)
            (self.other / 'tree').remove(recursive=True)
            return ''
        elif op == 'replace link':
            link.remove()
            u['a'].symlink(link)
            return ''
        elif op == 'end':
            self.late.close()
            self.late = u['b'].open('ab')
            return ''
        # these set an mtime
        elif op == 'copy':
            u['a'].copy(u['b'])
            self.want['b'] = self.want['a']
            return ''
        elif op == 'copy back':
            u['b'].copy(link)
            self.want['a'] = self.want['b']
            return ''
        elif op == 'copystat':
            u['a'].copystat(u['x'])
            self.want['x'] = self.want['a']
            return ''
        elif op == 'copystat of link':
            link.copystat(u['b'])
            self.want['b'] = self.want['a']
            return ''
        elif op == 'copy tree':
            (r / 'd').copy(r / 't', recursive=True)
            got = stamp((r / 't' / 'x').mtime())
            (r / 't').remove(recursive=True)
            require(got == self.want['x'], 'the mtime of a file of a copied tree is another one', got=got, expected=self.want['x'])
            return ''
        elif op == 'copy into directory':
            link.copy(r / 'd')
            got = stamp((r / 'd' / 'l').mtime())
            (r / 'd' / 'l').remove()
            require(got == self.want['a'], 'the mtime of a copied file is another one', got=got, expected=self.want['a'])
            return ''
        elif op == 'asked':
            if self.backend == 'memory':
                u['a']._manipulate(mtime=1200000000.5)
                self.want['a'] = 1200000000.5
                require(u['a'].mtime() == 1200000000.5, 'the mtime that was asked for is not there', got=u['a'].mtime())
            self.age('a')
            return ''
        elif op == 'asked by link':
            if self.backend == 'memory':
                link.info(dict(mtime=4300000000.75))
                self.want['a'] = 4300000000.75
            return ''
        return 'a'

    def check(self, changed, before, what):
        after = time.time()
        slack = 0 if self.backend == 'memory' else 1.1
        for n in 'abx':
            ways = [stamp(self.u[n].mtime()), stamp(self.u[n].info().mtime)] + ([stamp(self.link.mtime()), stamp(self.link.info().mtime)] if n == 'a' else [])
            require(len(set(ways)) == 1, 'mtime and info disagree', after=what, file=n, got=ways)
            if self.backend == 'local':
                i, s = self.u[n].info(), os.stat(self.u[n].path)
                require((stamp(i.ctime), stamp(i.atime), i.size, i.mode) == (int(s.st_ctime), int(s.st_atime), s.st_size, s.st_mode),
                        'info says something else than the operating system', after=what, file=n, got=repr(i), expected=repr(s))
            if n in changed:
                require(before - slack <= ways[0] <= after, 'the mtime of a changed file is not the present', after=what, file=n, got=ways[0], start=before, end=after)
                self.age(n)
            else:
                require(ways[0] == self.want[n], 'the mtime of an unchanged file is another one', after=what, file=n, got=ways[0], expected=self.want[n])


def run(ctx, case):
    ns = load()
    for h, era in product(histories(case), ('past', 'future') if case[3] == 'all' else ('both',)):
        w = World(ctx, ns, case[0], era)
        for i, op in enumerate(h):
            before = time.time()
            changed = w.do(op)
            w.check(changed, before, h[:i + 1])
            ctx.count('transitions')
            ctx.see('states', (case[0], op, changed, tuple(sorted((n, w.u[n].info().size, w.want[n] % 7919) for n in w.u))))
        w.late.close()
        ctx.count('traces')
    ctx.sample({'backend': case[0], 'history': list(h)})
