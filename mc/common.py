"""Shared plumbing of the checks: bootstrap of the code under test, workers, evidence.

Every check runs the code of /repo in worker processes only.  A worker has
dropped root (uid/gid 54321, which owns nothing but the scratch directory it
was given) before it imports anything of /repo, so an operation that escapes
its scratch tree - whatever a changed tree does - reaches nothing real.
"""
import hashlib
import json
import os
import pickle
import resource
import shutil
import signal
import stat
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
UNPRIV = 54321
CASE_TIMEOUT = int(os.environ.get('MC_CASE_TIMEOUT', '60'))
WORKERS = int(os.environ.get('MC_WORKERS', str(min(8, os.cpu_count() or 1))))


class Hang(BaseException):
    """a case ran far beyond any plausible duration"""


class Violated(Exception):
    """raised by a case whose property does not hold; carries the explanation"""
    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


def require(cond, what, **detail):
    if not cond:
        raise Violated(what, **detail)


# ----------------------------------------------------------------------------
# code under test

_loaded = None


def load():
    """import abl.vpath from the working tree; never from cached bytecode"""
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache-%d' % os.getpid()
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    # backends of the checks' own, found like any plug-in: by their entry points
    sys.path.insert(1, os.path.join(VERIF, 'mc', 'plugins'))
    import abl.vpath.base as base
    import abl.vpath.base.fs as fs
    assert os.path.abspath(base.__file__).startswith(REPO + '/'), base.__file__
    assert {'file', 'memory', 'zip'} <= set(fs.SCHEME_REGISTRY), fs.SCHEME_REGISTRY

    class NS(object):
        pass
    ns = NS()
    ns.plug = sys.modules.get('mcplug')
    ns.URI = base.URI
    ns.base = base
    ns.fs = fs
    ns.REG = fs.CONNECTION_REGISTRY
    ns.PathError = base.PathError
    ns.FileDoesNotExistError = base.FileDoesNotExistError
    _loaded = ns
    return ns


def fresh_memory():
    """drop every open connection: the next memory:/// is an empty one"""
    load().REG.cleanup(force=True)


# ----------------------------------------------------------------------------
# scratch space

def scratch_parent():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def wipe(path):
    """remove everything below `path` with plain os calls; never follows links"""
    for name in os.listdir(path):
        p = path + '/' + name
        st = os.lstat(p)
        if stat.S_ISDIR(st.st_mode):
            os.chmod(p, 0o700)
            wipe_tree(p)
        else:
            os.unlink(p)


def wipe_tree(path):
    if os.path.islink(path) or not os.path.isdir(path):
        os.unlink(path)
    else:
        try:
            shutil.rmtree(path)
        except PermissionError:
            for root, dirs, _ in os.walk(path):     # a directory lost its own mode
                for d in dirs:
                    if not os.path.islink(os.path.join(root, d)):
                        os.chmod(os.path.join(root, d), 0o700)
            shutil.rmtree(path)


def drop_privileges():
    if os.getuid() == 0:
        os.setgroups([])
        os.setresgid(UNPRIV, UNPRIV, UNPRIV)
        os.setresuid(UNPRIV, UNPRIV, UNPRIV)
    os.umask(0o022)


# ----------------------------------------------------------------------------
# running cases in workers

def _alarm(signum, frame):
    raise Hang()


class Ctx(object):
    """what a worker's case function gets"""
    def __init__(self, tier, seed, scratch):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.scratch = scratch
        self.counts = {}
        self.sets = {}
        self.samples = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def see(self, name, item):
        """count distinct items"""
        h = hashlib.blake2b(repr(item).encode('utf-8', 'surrogatepass'), digest_size=8).digest()
        self.sets.setdefault(name, set()).add(h)

    def sample(self, item, limit=3):
        if len(self.samples) < limit:
            self.samples.append(item)

    def local_root(self):
        """an empty local directory of this worker (as a str)"""
        d = os.path.join(self.scratch, 'l')
        try:
            os.mkdir(d)
        except FileExistsError:
            wipe(d)
        return d


MAX_VIOLATIONS_PER_WORKER = 5


def run_case(ctx, prop, case):
    """one case; -> None or a violation dict"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, prop_timeout(prop))
    try:
        try:
            prop.run(ctx, case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    except Violated as e:
        return {'case': case, 'what': e.what, 'detail': jsonable(e.detail)}
    except Hang:
        return {'case': case, 'what': 'did not terminate within %ds' % prop_timeout(prop), 'detail': {}}
    except MemoryError:
        return {'case': case, 'what': 'ran out of memory', 'detail': {}}
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        return {'case': case, 'what': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                'detail': {'traceback': traceback.format_exc()[-3000:]}}


def prop_timeout(prop):
    return getattr(prop, 'CASE_TIMEOUT', CASE_TIMEOUT)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v) for v in x), key=repr)
    if isinstance(x, bytes):
        return 'b:' + (x if len(x) < 200 else x[:200] + b'...').decode('latin-1')
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def _worker(prop, tier, seed, shard, nshards, scratch, wfd):
    os.chdir(scratch)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mem = getattr(prop, 'MEM_LIMIT', 3 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    devnull = os.open('/dev/null', os.O_RDWR)
    os.dup2(devnull, 0)
    drop_privileges()
    os.environ['HOME'] = scratch
    # no summer time, and not that of the machine: local times must not be taken for others
    os.environ['TZ'] = 'MCT+9:30'
    time.tzset()
    out = os.fdopen(wfd, 'wb')

    def send(msg):
        b = pickle.dumps(msg)
        out.write(struct.pack('>I', len(b)) + b)
        out.flush()

    ctx = Ctx(tier, seed, scratch)
    vio = []
    prop.setup(ctx) if hasattr(prop, 'setup') else load()
    # library prints on stdout must not reach the check's stdout
    sys.stdout = open('/dev/null', 'w')
    # re-seat the generator in the worker: cases are enumerated, not shipped
    for i, case in enumerate(prop.cases(ctx)):
        if i % nshards != shard:
            continue
        ctx.count('cases')
        if i % 64 == shard:
            send(('at', i, None))
        v = run_case(ctx, prop, case)
        if v is not None:
            vio.append(v)
            send(('vio', i, v))
            if len(vio) >= MAX_VIOLATIONS_PER_WORKER:
                ctx.count('stopped_early')
                break
    if hasattr(prop, 'finish'):
        prop.finish(ctx)
    send(('done', ctx.counts, ctx.sets, ctx.samples))
    out.close()
    os._exit(0)


def explore(prop, tier, seed):
    """run every case of `prop` over the workers -> (counts, sets, samples, violations)"""
    if hasattr(prop, 'prepare'):
        prop.prepare(tier)      # the model side only: nothing of /repo is imported here
    top = tempfile.mkdtemp(prefix='ablmc-', dir=scratch_parent())
    os.chmod(top, 0o755)
    n = getattr(prop, 'WORKERS', WORKERS)
    procs = []
    counts, sets, samples, vios, errors = {}, {}, [], [], []
    sys.stdout.flush()
    try:
        for s in range(n):
            scratch = os.path.join(top, 'w%d' % s)
            os.mkdir(scratch, 0o755)
            if os.getuid() == 0:
                os.chown(scratch, UNPRIV, UNPRIV)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for _, other, _ in procs:
                    os.close(other)
                try:
                    os.setpgid(0, 0)
                    _worker(prop, tier, seed, s, n, scratch, w)
                except BaseException:
                    traceback.print_exc()
                os._exit(7)
            os.close(w)
            procs.append((pid, r, s))
        import selectors
        sel = selectors.DefaultSelector()
        bufs = {}
        for pid, r, s in procs:
            bufs[r] = [b'', False, pid, s, None]
            sel.register(r, selectors.EVENT_READ)
        live = len(procs)
        while live:
            for key, _ in sel.select():
                fd = key.fd
                data = os.read(fd, 1 << 20)
                st = bufs[fd]
                if not data:
                    sel.unregister(fd)
                    os.close(fd)
                    live -= 1
                    continue
                st[0] += data
                while len(st[0]) >= 4:
                    (ln,) = struct.unpack('>I', st[0][:4])
                    if len(st[0]) < 4 + ln:
                        break
                    msg = pickle.loads(st[0][4:4 + ln])
                    st[0] = st[0][4 + ln:]
                    if msg[0] == 'at':
                        st[4] = msg[1]
                    elif msg[0] == 'vio':
                        vios.append((msg[1], msg[2]))
                    else:
                        st[1] = True
                        for k, v in msg[1].items():
                            counts[k] = counts.get(k, 0) + v
                        for k, v in msg[2].items():
                            sets.setdefault(k, set()).update(v)
                        samples.extend(msg[3])
        for pid, r, s in procs:
            _, status = os.waitpid(pid, 0)
            if not bufs[r][1]:
                errors.append('worker %d ended with status %d near case %s' % (s, status, bufs[r][4]))
    finally:
        for pid, _, _ in procs:
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(top, ignore_errors=True)
    vios.sort(key=lambda x: x[0])
    return counts, sets, samples, vios, errors
