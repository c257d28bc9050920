"""Drives a real file system of abl.vpath through its public API, side by side
with the reference model: the operations, the refusals and the observation."""
import os

from . import refmodel as rm
from .common import load, require, Violated

ALLOWED = None


def refusals():
    "what an operation may raise to refuse"
    global ALLOWED
    if ALLOWED is None:
        ns = load()
        ALLOWED = (OSError, ns.PathError, AssertionError)
    return ALLOWED


class Drive(object):
    """a root URI whose content is compared with a model state"""

    def __init__(self, root, name):
        self.root = root
        self.name = name

    def uri(self, path):
        u = self.root
        for comp in path:
            u = u / comp
        return u

    def target_of(self, link):
        "the model path a link URI points to, or the raw text"
        t = link.readlink().path
        r = self.root.path.rstrip('/')
        if t == r or t == r + '/':
            return ()
        if t.startswith(r + '/'):
            return tuple(t[len(r) + 1:].split('/'))
        return t

    # -- operations

    def apply(self, op):
        """-> ('ok', value) or ('no', exception); anything else is a violation"""
        try:
            return ('ok', self._do(op))
        except refusals() as e:
            return ('no', e)
        except Exception as e:
            raise Violated('%s: %s raised %s instead of refusing: %s'
                           % (self.name, show(op), type(e).__name__, str(e)[:200]))

    def _do(self, op):
        k = op[0]
        u = self.uri
        if k == 'mkdir':
            u(op[1]).mkdir()
        elif k == 'makedirs':
            u(op[1]).makedirs()
        elif k == 'write':
            with u(op[1]).open('wb') as f:
                f.write(op[2])
        elif k == 'append':
            with u(op[1]).open('ab') as f:
                f.write(op[2])
        elif k == 'symlink':
            u(op[1]).symlink(u(op[2]))
        elif k == 'remove':
            u(op[1]).remove()
        elif k == 'rmr':
            u(op[1]).remove(recursive=True)
        elif k == 'copy':
            # links are followed unless told otherwise
            u(op[1]).copy(u(op[2]), **({} if op[3] else {'followlinks': False}))
        elif k == 'copytree':
            ignore = op[4] if len(op) > 4 else None
            given = {} if op[3] else {'followlinks': False}
            if ignore is not None:
                given['ignore'] = ignore
            u(op[1]).copy(u(op[2]), recursive=True, **given)
        elif k == 'move':
            u(op[1]).move(u(op[2]))
        elif k == 'setexec':
            u(op[1]).set_exec(op[2])
        elif k == 'copystat':
            u(op[1]).copystat(u(op[2]))
        elif k == 'read':
            with u(op[1]).open('rb') as f:
                return f.read()
        elif k == 'listdir':
            return sorted(u(op[1]).listdir())
        elif k == 'readlink':
            return self.target_of(u(op[1]))
        elif k == 'exists':
            return bool(u(op[1]).exists())
        elif k == 'isfile':
            return bool(u(op[1]).isfile())
        elif k == 'isdir':
            return bool(u(op[1]).isdir())
        elif k == 'islink':
            return bool(u(op[1]).islink())
        elif k == 'isexec':
            return bool(u(op[1]).isexec(op[2]))
        elif k == 'size':
            return u(op[1]).info().size
        else:
            raise AssertionError('unknown op %r' % (op,))
        return None

    # -- observation

    def observe(self, modes=True):
        """the whole tree as a model state, found with listdir alone"""
        st = {}
        todo = [((), self.root)]
        while todo:
            p, u = todo.pop()
            names = u.listdir()
            require(len(names) == len(set(names)), '%s: listdir of %s repeats a name' % (self.name, sp(p)),
                    names=names)
            for n in names:
                q, v = p + (n,), u / n
                if v.islink():
                    st[q] = ('l', self.target_of(v))
                elif v.isdir():
                    st[q] = ('d',)
                    todo.append((q, v))
                    require(len(st) < 400, '%s: the tree grew out of proportion' % self.name)
                elif v.isfile():
                    with v.open('rb') as f:
                        c = f.read()
                    ex = 0
                    if modes:
                        ex = v.info().mode & 0o111
                    st[q] = ('f', c, ex)
                else:
                    raise Violated('%s: %s is listed but is no file, directory or link' % (self.name, sp(q)))
        return st


def memory_drive():
    ns = load()
    ns.REG.cleanup(force=True)
    return Drive(ns.URI('memory:///'), 'memory')


def sub_drive(drive, name, label=None):
    u = drive.root / name
    u.mkdir()
    return Drive(u, label or drive.name)


def local_drive(ctx):
    ns = load()
    return Drive(ns.URI(ctx.local_root()), 'local')


# ----------------------------------------------------------------------------
# model side

def model_apply(st, op):
    """mutates st; -> ('ok', value) / ('no', kind); raises rm.Cyclic out of domain"""
    k = op[0]
    try:
        if k == 'mkdir':
            rm.mkdir(st, op[1])
        elif k == 'makedirs':
            rm.makedirs(st, op[1])
        elif k == 'write':
            rm.write(st, op[1], op[2])
        elif k == 'append':
            rm.write(st, op[1], op[2], append=True)
        elif k == 'symlink':
            rm.symlink(st, op[1], op[2])
        elif k == 'remove':
            rm.remove(st, op[1])
        elif k == 'rmr':
            rm.remove(st, op[1], True)
        elif k == 'copy':
            rm.copy_file(st, op[1], op[2], op[3])
        elif k == 'copytree':
            rm.copy_tree(st, op[1], op[2], op[3], op[4] if len(op) > 4 and op[4] else ())
        elif k == 'move':
            rm.move(st, op[1], op[2])
        elif k == 'setexec':
            rm.set_exec(st, op[1], op[2])
        elif k == 'copystat':
            rm.copystat(st, op[1], op[2])
        elif k == 'read':
            return ('ok', rm.read(st, op[1]))
        elif k == 'listdir':
            return ('ok', rm.listdir(st, op[1]))
        elif k == 'readlink':
            return ('ok', rm.readlink(st, op[1]))
        elif k == 'exists':
            return ('ok', rm.exists(st, op[1]))
        elif k == 'isfile':
            return ('ok', rm.isfile(st, op[1]))
        elif k == 'isdir':
            return ('ok', rm.isdir(st, op[1]))
        elif k == 'islink':
            return ('ok', rm.islink(st, op[1]))
        elif k == 'isexec':
            return ('ok', rm.isexec(st, op[1], op[2]))
        elif k == 'size':
            return ('ok', len(rm.read(st, op[1])))
        else:
            raise AssertionError(op)
    except rm.Err as e:
        return ('no', e.kind)
    return ('ok', None)


# ----------------------------------------------------------------------------
# comparing

def sp(p):
    return '/' + '/'.join(p)


def show(op):
    out = []
    for x in op:
        if isinstance(x, tuple) and all(isinstance(c, str) for c in x):
            out.append(sp(x))
        else:
            out.append(repr(x))
    return '%s(%s)' % (op[0], ', '.join(out[1:]))


def show_hist(hist):
    return '; '.join(show(o) for o in hist)


def show_state(st):
    return {sp(p): (nd[0] if nd[0] == 'd' else
                    '-> ' + (sp(nd[1]) if isinstance(nd[1], tuple) else str(nd[1])) if nd[0] == 'l'
                    else '%r%s' % (nd[1][:40], ' mode %o' % nd[2] if nd[2] else ''))
            for p, nd in sorted(st.items())}


def same_outcome(drive, op, real, model, hist=()):
    if real[0] != model[0]:
        raise Violated('%s: %s %s, expected %s' % (
            drive.name, show(op),
            'succeeded' if real[0] == 'ok' else 'was refused with %s: %s' % (type(real[1]).__name__, str(real[1])[:120]),
            'success' if model[0] == 'ok' else 'a refusal (%s)' % model[1]),
            history=show_hist(hist))
    if real[0] == 'ok' and real[1] != model[1]:
        raise Violated('%s: %s gave %r, expected %r' % (drive.name, show(op), real[1], model[1]),
                       history=show_hist(hist))


def same_state(drive, st, what, hist=(), modes=True):
    got = drive.observe(modes)
    if got != st:
        if not modes:
            strip = {p: (nd[:2] + (0,) if nd[0] == 'f' else nd) for p, nd in st.items()}
            if got == strip:
                return
        diff = {sp(p): [repr(got.get(p)), repr(st.get(p))] for p in set(got) | set(st) if got.get(p) != st.get(p)}
        raise Violated('%s: wrong tree after %s' % (drive.name, what), history=show_hist(hist),
                       got_vs_expected=diff)


def replay(drive, hist):
    """bring a fresh drive to the state reached by a history that the model accepts"""
    for op in hist:
        drive.apply(op)


# ----------------------------------------------------------------------------
# queries on every path, against the model

def probe(drive, st, paths, hist=()):
    for p in paths:
        for q in ('exists', 'isfile', 'isdir', 'islink'):
            want = model_apply(st, (q, p))
            got = drive.apply((q, p))
            same_outcome(drive, (q, p), got, want, hist)
        for q in ('listdir', 'read', 'readlink'):
            if q == 'readlink' and p == ():
                continue
            want = model_apply(st, (q, p))
            got = drive.apply((q, p))
            same_outcome(drive, (q, p), got, want, hist)
    return len(paths) * 7


# ----------------------------------------------------------------------------
# breadth-first search of the model

def bfs(initial, ops, limit, maxnodes=None):
    """-> list of (history, state): every model state within `limit` successful
    operations, each with the first (shortest) history that reaches it"""
    start = dict(initial)
    seen = {rm.canon(start)}
    out = [((), start)]
    frontier = [((), start)]
    for _ in range(limit):
        nxt = []
        for hist, st in frontier:
            for op in ops:
                s2 = dict(st)
                try:
                    r = model_apply(s2, op)
                except rm.Cyclic:
                    continue
                if r[0] != 'ok':
                    continue
                if maxnodes is not None and len(s2) > maxnodes:
                    continue
                c = rm.canon(s2)
                if c in seen:
                    continue
                seen.add(c)
                item = (hist + (op,), s2)
                nxt.append(item)
        out.extend(nxt)
        frontier = nxt
    return out
