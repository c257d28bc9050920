"""A backend as a plug-in author would write it: the primitives only, over the
reference model, with a hook before each primitive (fault injection)."""
import io

from abl.vpath.base.fs import URI, BaseUri, FileSystem, RevisionedFileSystem, RevisionedUri
from mc import refmodel as rm

ERRNO = {'ENOENT': 2, 'ENOTDIR': 20, 'EISDIR': 21, 'EEXIST': 17, 'ELOOP': 40, 'ENOTEMPTY': 39, 'EINVAL': 22, 'MISSING': 2}


class Injected(OSError):
    "the injected fault"


class Faults(object):
    """counts primitive calls; those whose number is in `at` fail"""
    def __init__(self, at=()):
        self.at = frozenset(at)
        self.n = 0
        self.log = []
        self.armed = True

    def __call__(self, what):
        if not self.armed:
            return
        self.n += 1
        self.log.append(what)
        if self.n in self.at:
            raise Injected(5, 'injected failure of step %d: %s' % (self.n, what))


def hook(fs, what):
    f = Controls.faults
    if f is not None:
        f(what)


class Controls(object):
    faults = None


def oserror(e):
    return OSError(ERRNO.get(e.kind, 5), e.kind)


class Out(io.BytesIO):
    "commits when closed, as archives and remote backends do"
    def __init__(self, fs, path, data):
        io.BytesIO.__init__(self)
        self.fs, self.p, self.done = fs, path, False
        io.BytesIO.write(self, data)

    def write(self, data):
        hook(self.fs, 'write')
        return io.BytesIO.write(self, data)

    def close(self):
        if self.done:
            return
        self.done = True
        hook(self.fs, 'close')
        rm.write(self.fs.st, self.p, self.getvalue())
        io.BytesIO.close(self)

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        self.done = True


class In(io.BytesIO):
    def __init__(self, fs, data):
        io.BytesIO.__init__(self, data)
        self.fs = fs

    def read(self, *a):
        hook(self.fs, 'read')
        return io.BytesIO.read(self, *a)


class Info(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class MiniUri(BaseUri):
    pass


class BareFileSystem(FileSystem):
    """without links"""
    scheme = 'bare'
    uri = MiniUri
    links = False

    def _initialize(self):
        self.st = {}

    def p(self, path):
        return tuple(x for x in path.path.split('/') if x)

    def do(self, what, func, path, *args):
        hook(self, what)
        try:
            return func(self.st, self.p(path), *args)
        except rm.Err as e:
            raise oserror(e)

    def open(self, path, options=None, mimetype='application/octet-stream'):
        hook(self, 'open')
        options = options or 'r'
        try:
            if 'r' in options:
                data = rm.read(self.st, self.p(path))
                f = In(self, data)
            elif 'a' in options:
                rm.write(self.st, self.p(path), b'', append=True)
                f = Out(self, self.p(path), rm.read(self.st, self.p(path)))
            else:
                rm.write(self.st, self.p(path), b'')
                f = Out(self, self.p(path), b'')
        except rm.Err as e:
            raise oserror(e)
        if 'b' not in options:
            f = io.TextIOWrapper(f, 'utf-8', newline='')
        return f

    def listdir(self, path):
        # no order is promised
        return list(reversed(self.do('listdir', rm.listdir, path)))

    def removefile(self, path):
        hook(self, 'removefile')
        try:
            p = rm.lookup(self.st, self.p(path), False)
        except rm.Err as e:
            raise oserror(e)
        if p == () or self.st[p][0] == 'd':
            raise OSError(21, 'is a directory')
        del self.st[p]

    def removedir(self, path):
        hook(self, 'removedir')
        try:
            p = rm.lookup(self.st, self.p(path), False)
        except rm.Err as e:
            raise oserror(e)
        if p == () or self.st[p][0] != 'd':
            raise OSError(20, 'not a directory')
        if rm.children(self.st, p):
            raise OSError(39, 'not empty')
        del self.st[p]

    def mkdir(self, path):
        return self.do('mkdir', rm.mkdir, path)

    def exists(self, path):
        return self.do('exists', rm.exists, path)

    def isfile(self, path):
        return self.do('isfile', rm.isfile, path)

    def isdir(self, path):
        return self.do('isdir', rm.isdir, path)

    def supports_symlinks(self):
        return self.links

    def copystat(self, path, other):
        hook(self, 'copystat')
        try:
            rm.copystat(self.st, self.p(path), self.p(other))
        except rm.Err as e:
            raise oserror(e)

    def mtime(self, path):
        return 0.0

    def info(self, path, set_info=None, followlinks=True):
        nd = self.do('info', rm.node, path, followlinks)
        if set_info is not None:
            raise NotImplementedError
        return Info(mode=nd[2] if nd[0] == 'f' else 0, size=len(nd[1]) if nd[0] == 'f' else 0, mtime=0.0)

    def isexec(self, path, mode):
        return self.do('isexec', rm.isexec, path, mode)

    def set_exec(self, path, mode):
        return self.do('set_exec', rm.set_exec, path, mode)


class MiniFileSystem(BareFileSystem):
    scheme = 'mini'
    links = True

    def islink(self, path):
        return self.do('islink', rm.islink, path)

    def readlink(self, path):
        t = self.do('readlink', rm.readlink, path)
        return URI('%s:///%s' % (self.scheme, '/'.join(t)))

    def symlink(self, target, link_name):
        hook(self, 'symlink')
        try:
            rm.symlink(self.st, self.p(target), self.p(link_name))
        except rm.Err as e:
            raise oserror(e)


class RecordingFileSystem(FileSystem):
    """records how it was created, what it was called with and that it was closed"""
    scheme = 'rec'
    uri = BaseUri
    created = []
    calls = []

    def __init__(self, *args, **kwargs):
        type(self).created.append((self, args, kwargs))
        super(RecordingFileSystem, self).__init__(*args, **kwargs)

    def _initialize(self):
        self.closed = 0
        self.fail_on_close = False

    def exists(self, path):
        type(self).calls.append((self, path))
        return True

    isdir = isfile = exists

    def listdir(self, path):
        type(self).calls.append((self, path))
        return ['n2', 'n1'] if path.path.count('/') < 4 else []

    def supports_symlinks(self):
        return False

    def close(self):
        self.closed += 1
        if self.fail_on_close:
            raise RuntimeError('closing failed')


class RecordingFileSystem2(RecordingFileSystem):
    scheme = 'rec2'


class RecordingHttp(RecordingFileSystem):
    scheme = 'http'


class RecordingHttps(RecordingFileSystem):
    scheme = 'https'


ANSWERS = {}


def _recorder(name):
    def method(self, *args, **kwargs):
        type(self).calls.append((self, name, args, kwargs))
        a = ANSWERS.get(name)
        if isinstance(a, BaseException):
            raise a
        return a
    method.__name__ = name
    return method


class RevisionedRecorder(RevisionedFileSystem):
    scheme = 'revrec'
    uri = RevisionedUri
    calls = []

    def _initialize(self):
        pass


for _name in ('open', 'listdir', 'removefile', 'removedir', 'mkdir', 'makedirs', 'exists', 'isfile', 'isdir', 'isexec', 'set_exec',
              'islink', 'readlink', 'symlink', 'info', 'sync', 'mtime', 'copystat', 'copy', 'move', 'walk', 'glob', 'lock',
              'switch', 'update', 'log', 'log_by_time'):
    setattr(RevisionedRecorder, _name, _recorder(_name))
