"""A file system in memory for code that saves and loads files.

Files are contents (any object, copied when written); every operation that
changes the file system can be the last one before a crash."""
import copy
import fnmatch
import os
import types


class Crash(BaseException):
    """The process dies."""


class Handle(object):
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, text):
        if isinstance(text, Blob):
            self.fs.write(text.obj, self)
            return
        old = self.fs.files.get(self.path)
        self.fs.write(text if old is Torn else old + text, self)

    def read(self):
        v = self.fs.read(self)
        return v if isinstance(v, (str, bytes)) else Blob(v)

    def flush(self):
        pass

    def fileno(self):
        return 0


class Blob(object):
    """A serialized object."""

    def __init__(self, obj):
        self.obj = copy.deepcopy(obj)


class Torn(object):
    """Content of a file that was not written completely."""


class Files(object):
    def __init__(self, crash=None):
        self.files, self.dirs = {}, {'/', '/s'}
        self.crash, self.ops, self.log = crash, 0, []
        self.removed = []

    def step(self, what):
        self.ops += 1
        self.log.append(what)
        if self.crash is not None and self.ops >= self.crash:
            raise Crash()

    # -- os ---------------------------------------------------------------
    def norm(self, p):
        return os.path.normpath(str(p))

    def exists(self, p):
        p = self.norm(p)
        return p in self.files or p in self.dirs

    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = self.norm(p)
        if p in self.dirs:
            if exist_ok:
                return
            raise FileExistsError(p)
        self.step(('mkdir', p))
        while p not in self.dirs:
            self.dirs.add(p)
            p = os.path.dirname(p)

    def remove(self, p):
        p = self.norm(p)
        if p not in self.files:
            raise FileNotFoundError(p)
        self.step(('remove', p))
        self.removed.append(p)
        del self.files[p]

    def replace(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a not in self.files:
            raise FileNotFoundError(a)
        self.step(('replace', a, b))
        self.files[b] = self.files.pop(a)

    def listdir(self, p='.'):
        p = self.norm(p)
        if p not in self.dirs:
            raise FileNotFoundError(p)
        return sorted({f[len(p.rstrip('/')) + 1:].split('/')[0]
                       for f in list(self.files) + sorted(self.dirs)
                       if f.startswith(p.rstrip('/') + '/')})

    def open(self, p, mode='r', *a, **k):
        p = self.norm(p)
        if 'w' in mode:
            if os.path.dirname(p) not in self.dirs:
                raise FileNotFoundError(p)
            self.step(('open', p))
            self.files[p] = Torn
        elif p not in self.files:
            raise FileNotFoundError(p)
        return Handle(self, p, mode)

    def write(self, obj, handle):
        self.step(('write', handle.path))
        self.files[handle.path] = copy.deepcopy(obj)

    def read(self, handle):
        v = self.files[handle.path]
        if v is Torn:
            raise ValueError('incomplete file ' + handle.path)
        return copy.deepcopy(v)

    def parse(self, s):
        return copy.deepcopy(s.obj) if isinstance(s, Blob) else self.read(s)

    # -- stand-ins --------------------------------------------------------
    def os(self):
        path = types.SimpleNamespace(**{k: getattr(os.path, k) for k in (
            'join', 'basename', 'dirname', 'splitext', 'normpath', 'split',
            'abspath', 'sep', 'isabs', 'relpath')})
        path.exists = path.lexists = self.exists
        path.isdir = lambda p: self.norm(p) in self.dirs
        path.isfile = lambda p: self.norm(p) in self.files
        return types.SimpleNamespace(
            path=path, makedirs=self.makedirs, mkdir=self.makedirs,
            remove=self.remove, unlink=self.remove, replace=self.replace,
            rename=self.replace, listdir=self.listdir, sep='/',
            fsync=lambda fd: None, getpid=lambda: 1, getcwd=lambda: '/s')

    def yaml(self):
        load = lambda s, Loader=None: self.parse(s)         # noqa: E731

        def dump(obj, stream=None, **k):
            return Blob(obj) if stream is None else self.write(obj, stream)
        return types.SimpleNamespace(
            load=load, safe_load=load, full_load=load, dump=dump,
            safe_dump=dump, Loader=None, SafeLoader=None, Dumper=None)

    def pickle(self):
        return types.SimpleNamespace(
            load=lambda s, **k: self.read(s), HIGHEST_PROTOCOL=5,
            dumps=lambda obj, protocol=None, **k: Blob(obj),
            loads=lambda s, **k: self.parse(s),
            dump=lambda obj, s, protocol=None, **k: self.write(obj, s))

    def glob(self):
        import glob as real

        def find(pattern, recursive=False):
            return [f for f in sorted(self.files) + sorted(self.dirs)
                    if match(self.norm(pattern), f)]
        return types.SimpleNamespace(
            glob=find, iglob=find, escape=real.escape,
            has_magic=real.has_magic)

    def patch(self, env, *modules):
        for m in modules:
            for k, v in (('os', self.os), ('yaml', self.yaml),
                         ('pickle', self.pickle), ('glob', self.glob)):
                if hasattr(m, k):
                    env.patch(m, k, v())
            env.patch(m, 'open', self.open)


def match(pattern, path):
    a, b = pattern.split('/'), path.split('/')
    return len(a) == len(b) and all(
        fnmatch.fnmatchcase(y, x) and not (
            y.startswith('.') and not x.startswith('.'))
        for x, y in zip(a, b))
