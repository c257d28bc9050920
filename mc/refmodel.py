"""Reference file system: a dict from path tuples to nodes, with POSIX lookups.

State: dict  path -> ('d',) | ('f', content_bytes, execbits) | ('l', target_path)
The root () is always a directory and is not stored.  Link targets are absolute
paths of the model.  Operations mutate the dict and return a value or raise
`Err(kind)`; an operation that raises has not changed anything unless it is one
of the multi-step ones (copy, move, recursive remove), see each.
"""


class Err(Exception):
    def __init__(self, kind):
        Exception.__init__(self, kind)
        self.kind = kind


class Cyclic(Exception):
    "the operation is outside the modelled domain (endless walk over links)"


MAXLINKS = 32


def is_dir(st, p):
    return p == () or (p in st and st[p][0] == 'd')


def resolve(st, path, follow=True):
    """-> canonical path of the node, or ('missing', canonical path)

    raises Err ENOENT / ENOTDIR / ELOOP when a leading component fails"""
    budget = MAXLINKS
    todo = list(path)
    cur = ()
    while todo:
        comp = todo.pop(0)
        if not is_dir(st, cur):
            raise Err('ENOTDIR')
        nxt = cur + (comp,)
        nd = st.get(nxt)
        if nd is None:
            if todo:
                raise Err('ENOENT')
            return ('missing', nxt)
        if nd[0] == 'l' and (todo or follow):
            budget -= 1
            if budget < 0:
                raise Err('ELOOP')
            todo = list(nd[1]) + todo
            cur = ()
            continue
        cur = nxt
    return ('node', cur)


def lookup(st, path, follow=True):
    "canonical path of an existing node, else raise"
    kind, p = resolve(st, path, follow)
    if kind == 'missing':
        raise Err('ENOENT')
    return p


def node(st, path, follow=True):
    p = lookup(st, path, follow)
    return ('d',) if p == () else st[p]


def kind_of(st, path, follow=True):
    try:
        return node(st, path, follow)[0]
    except Err:
        return None


def exists(st, path):
    return kind_of(st, path) is not None


def isfile(st, path):
    return kind_of(st, path) == 'f'


def isdir(st, path):
    return kind_of(st, path) == 'd'


def islink(st, path):
    return path != () and kind_of(st, path, False) == 'l'


def readlink(st, path):
    nd = node(st, path, False)
    if nd[0] != 'l':
        raise Err('EINVAL')
    return nd[1]


def children(st, p):
    n = len(p)
    return sorted(q[-1] for q in st if len(q) == n + 1 and q[:n] == p)


def listdir(st, path):
    p = lookup(st, path)
    if not is_dir(st, p):
        raise Err('ENOTDIR')
    return children(st, p)


def mkdir(st, path):
    if path == ():
        raise Err('EEXIST')
    kind, p = resolve(st, path, False)
    if kind != 'missing':
        raise Err('EEXIST')
    st[p] = ('d',)


def makedirs(st, path):
    if isdir(st, path):
        return
    if not isdir(st, path[:-1]):
        makedirs(st, path[:-1])
    mkdir(st, path)


def write(st, path, data, append=False):
    kind, p = resolve(st, path, True)
    if kind == 'missing':
        st[p] = ('f', data, 0)
        return
    if is_dir(st, p):
        raise Err('EISDIR')
    old = st[p]
    st[p] = ('f', (old[1] + data) if append else data, old[2])


def read(st, path):
    nd = node(st, path)
    if nd[0] != 'f':
        raise Err('EISDIR')
    return nd[1]


def symlink(st, target, link):
    if link == ():
        raise Err('EEXIST')
    kind, p = resolve(st, link, False)
    if kind != 'missing':
        raise Err('EEXIST')
    st[p] = ('l', target)


def isexec(st, path, mask=0o111):
    nd = node(st, path)
    if nd[0] != 'f':
        raise Cyclic('mode of directories is not modelled')
    return nd[2] & mask != 0


def set_exec(st, path, mode):
    p = lookup(st, path)
    if is_dir(st, p):
        raise Cyclic('mode of directories is not modelled')
    st[p] = ('f', st[p][1], mode)


def copystat(st, src, dst):
    s = lookup(st, src)
    d = lookup(st, dst)
    if is_dir(st, s) or is_dir(st, d):
        raise Cyclic('mode of directories is not modelled')
    st[d] = ('f', st[d][1], st[s][2])


def subtree(st, p):
    n = len(p)
    return [q for q in st if q[:n] == p]


def remove(st, path, recursive=False):
    if islink(st, path):
        del st[lookup(st, path, False)]
        return
    p = None
    try:
        p = lookup(st, path)
    except Err:
        raise Err('MISSING')
    if p == ():
        raise Cyclic('removal of the root')
    if st[p][0] == 'f':
        del st[p]
        return
    if not recursive and children(st, p):
        raise Err('ENOTEMPTY')
    for q in subtree(st, p):
        del st[q]


def walk(st, top, topdown=True, followlinks=True, _depth=0):
    "yields (path as spelled, dirs, files); dirs may be pruned when topdown"
    if _depth > 12:
        raise Cyclic('walk')
    dirs, files = [], []
    for n in listdir(st, top):
        (dirs if isdir(st, top + (n,)) else files).append(n)
    if topdown:
        yield top, dirs, files
    for n in dirs:
        q = top + (n,)
        if followlinks or not islink(st, q):
            for x in walk(st, q, topdown, followlinks, _depth + 1):
                yield x
    if not topdown:
        yield top, dirs, files


def same(st, a, b):
    try:
        return lookup(st, a) == lookup(st, b)
    except Err:
        return False


def _inside(st, src, dst):
    "dst (existing or not) is src or lies below it"
    try:
        s = lookup(st, src)
    except Err:
        return False
    d = dst
    while True:
        try:
            kind, p = resolve(st, d)
            break
        except Err as e:
            if e.kind == 'ELOOP':
                return False
            d = d[:-1]
    return p[:len(s)] == s


def not_through(st, src, dst):
    "the link at dst is not needed, by name, to reach src or dst"
    for p in (src, dst):
        for n in range(len(p)):
            if islink(st, p[:n]) and same_entry(st, p[:n], dst):
                raise Err('THROUGH')


def copy_link(st, src, dst):
    target = readlink(st, src)
    if same_entry(st, src, dst):
        raise Err('SAME')
    if islink(st, dst):
        not_through(st, src, dst)
    if islink(st, dst) or isfile(st, dst):
        del st[lookup(st, dst, False)]
    symlink(st, target, dst)


def copy_one(st, src, dst, keepmode=True):
    nd = node(st, src)
    if nd[0] != 'f':
        raise Err('EISDIR')
    if same(st, src, dst):
        raise Err('SAME')
    write(st, dst, nd[1])
    if keepmode:
        copystat(st, src, dst)


def copy_file(st, src, dst, followlinks=True, keepmode=True):
    if not exists(st, src):
        raise Err('MISSING')
    if not isfile(st, src):
        raise Err('REFUSED')
    if isdir(st, dst):
        dst = dst + (src[-1],)
    if islink(st, src) and not followlinks:
        copy_link(st, src, dst)
    else:
        copy_one(st, src, dst, keepmode)


def same_entry(st, a, b):
    try:
        return lookup(st, a, False) == lookup(st, b, False)
    except Err:
        return False


def copy_tree(st, src, dst, followlinks=True, ignore=(), keepmode=True):
    """copies into the same state; a failure may leave a partial destination"""
    before = dict(st)
    if followlinks and any(nd[0] == 'l' for nd in st.values()):
        # a link may lead to what is being copied just now: whether it did when
        # it was looked at is not for a property to say
        other = dict(st)
        try:
            _copy_tree(other, src, dst, followlinks, ignore, keepmode, _copy_entries)
            fine = True
        except Cyclic:
            raise
        except Err:
            fine = False
        try:
            _copy_tree(st, src, dst, followlinks, ignore, keepmode, _copy_walk)
        except Err:
            if fine:
                raise Cyclic('depends on the order')
            raise
        if not fine or other != st:
            st.clear()
            st.update(before)
            raise Cyclic('depends on the order')
        return
    _copy_tree(st, src, dst, followlinks, ignore, keepmode, _copy_walk)


def _copy_tree(st, src, dst, followlinks, ignore, keepmode, how):
    if not exists(st, src):
        raise Err('MISSING')
    if not isdir(st, src):
        raise Err('REFUSED')
    droot = dst + ((src[-1] if src else ''),) if isdir(st, dst) else dst
    if islink(st, src) and not followlinks:
        copy_link(st, src, droot)
        return
    if _inside(st, src, droot):
        raise Err('INSIDE')
    makedirs(st, droot)
    how(st, src, droot, followlinks, ignore, keepmode)


def _copy_entries(st, src, droot, followlinks, ignore, keepmode, depth=0):
    "entry by entry"
    if depth > 12:
        raise Cyclic('endless')
    for name in listdir(st, src):
        s, d = src + (name,), droot + (name,)
        if isdir(st, s) and name in ignore:
            continue
        if isdir(st, s):
            makedirs(st, d)
            _copy_entries(st, s, d, followlinks, ignore, keepmode, depth + 1)
        else:
            copy_one(st, s, d, keepmode)


def _copy_walk(st, src, droot, followlinks, ignore, keepmode):
    for root, dirs, files in walk(st, src, True, followlinks):
        dbase = droot + root[len(src):]
        for name in dirs[:]:
            if name in ignore:
                dirs.remove(name)
                continue
            s, d = root + (name,), dbase + (name,)
            if islink(st, s) and not followlinks:
                copy_link(st, s, d)
            else:
                makedirs(st, d)
        for name in files:
            s, d = root + (name,), dbase + (name,)
            if islink(st, s) and not followlinks:
                copy_link(st, s, d)
            else:
                copy_one(st, s, d, keepmode)


def move(st, src, dst):
    "unix mv, except that an existing directory is never replaced"
    if not exists(st, src) and not islink(st, src):
        raise Err('MISSING')
    s = lookup(st, src, False)
    if s == ():
        raise Cyclic('move of the root')
    real_dir = st[s][0] == 'd'
    if isdir(st, dst):
        dst = dst + (src[-1],)
    if same_entry(st, src, dst):
        raise Err('SAME')
    if not islink(st, dst) and same(st, src, dst):
        raise Err('SAME')
    if real_dir and _inside(st, src, dst):
        raise Err('INSIDE')
    if islink(st, dst) or exists(st, dst):
        if real_dir or not (islink(st, dst) or isfile(st, dst)):
            raise Err('EXISTS')
    if real_dir:
        makedirs(st, dst[:-1])
    kind, d = resolve(st, dst, False)
    if kind == 'node':
        not_through(st, src, dst)
        old = st.pop(d)
        if not (exists(st, src) or islink(st, src)) or not isdir(st, dst[:-1]):
            raise Cyclic('the replaced link is needed, but not by name')
    moved = {d + q[len(s):]: st[q] for q in subtree(st, s)}
    for q in subtree(st, s):
        del st[q]
    st.update(moved)


# ----------------------------------------------------------------------------

def canon(st):
    return tuple(sorted(st.items()))


def links_acyclic_for_walk(st, top=()):
    try:
        for _ in walk(st, top):
            pass
        return True
    except Cyclic:
        return False
