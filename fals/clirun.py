"""Runs the real command line tools in this process, inside a scratch
directory, with faults injected at chosen points."""
import io
import os
import shutil
import sys
import tempfile

from . import env


class Fault(OSError):
    pass


class Result(object):
    def __init__(self, status, out, exc):
        self.status, self.out, self.exc = status, out, exc


class Faults(object):
    """The n-th call (0-based) of the chosen kind fails; everything is
    counted.  A failing write may first write part of the text."""
    KINDS = ('open-w', 'write', 'move', 'copymode', 'open-r', 'close')

    def __init__(self, kind=None, n=0, partial=False):
        self.kind, self.n, self.partial = kind, n, partial
        self.seen = {}
        self.hit = False

    def at(self, kind):
        k = self.seen.get(kind, 0)
        self.seen[kind] = k + 1
        if kind == self.kind and k == self.n:
            self.hit = True
            return True
        return False

    def wrap(self, f):
        faults = self

        class Wrapped(object):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def close(self):
                bad = not f.closed and faults.at('close')
                f.close()
                if bad:
                    raise Fault('close')

            def write(self, s):
                if faults.at('write'):
                    if faults.partial:
                        f.write(s[:len(s) // 2])
                        f.flush()
                    raise Fault('write')
                return f.write(s)

            def __getattr__(self, name):
                return getattr(f, name)
        return Wrapped()


def run(modname, argv, cwd, faults=None, stdin=b''):
    """Result of `modname`'s main() with these arguments."""
    mod = env.mod(modname)
    faults = faults or Faults()
    real = {}

    def patch(obj, name, f):
        real[obj, name] = getattr(obj, name)
        setattr(obj, name, f)

    ropen = io.open

    def fopen(file, mode='r', *a, **k):
        w = any(c in mode for c in 'wax+')
        if faults.at('open-w' if w else 'open-r'):
            raise Fault('open')
        f = ropen(file, mode, *a, **k)
        return faults.wrap(f) if w else f

    def failing(kind, g):
        def f(*a, **k):
            if inside:
                return g(*a, **k)
            if faults.at(kind):
                raise Fault(kind)
            inside.append(1)
            try:
                return g(*a, **k)
            finally:
                inside.pop()
        return f
    inside = []
    save = [os.dup(i) for i in (0, 1, 2)]
    tmp = tempfile.TemporaryFile()
    tin = tempfile.TemporaryFile()
    tin.write(stdin)
    tin.flush()
    tin.seek(0)
    null = os.open(os.devnull, os.O_WRONLY)
    old = os.getcwd()
    so, se, si, sa = sys.stdout, sys.stderr, sys.stdin, sys.argv
    exc = None
    try:
        os.dup2(tin.fileno(), 0)
        os.dup2(tmp.fileno(), 1)
        os.dup2(null, 2)
        sys.stdout = ropen(1, 'w', encoding='utf-8', closefd=False)
        sys.stderr = ropen(2, 'w', encoding='utf-8', closefd=False)
        sys.stdin = ropen(0, 'r', encoding='utf-8', closefd=False)
        sys.argv = [modname] + list(argv)
        os.chdir(cwd)
        patch(io, 'open', fopen)
        patch(shutil, 'move', failing('move', shutil.move))
        patch(shutil, 'copymode', failing('copymode', shutil.copymode))
        patch(os, 'rename', failing('move', os.rename))
        patch(os, 'replace', failing('move', os.replace))
        try:
            status = env.limited(mod.main)
            status = 0 if status is None else status
        except SystemExit as ex:
            status = ex.code if ex.code is not None else 0
            if isinstance(status, str):
                status = 1
        except env.TooSlow:
            raise
        except BaseException as ex:      # Python would exit with 1
            status, exc = 1, ex
        sys.stdout.flush()
    finally:
        for (obj, name), f in real.items():
            setattr(obj, name, f)
        os.chdir(old)
        sys.stdout, sys.stderr, sys.stdin, sys.argv = so, se, si, sa
        for i, fd in enumerate(save):
            os.dup2(fd, i)
            os.close(fd)
        os.close(null)
        tin.close()
    tmp.seek(0)
    out = tmp.read()
    tmp.close()
    return Result(int(status), out, exc)


class Scratch(object):
    """A scratch directory with files; removed at the end."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='cmfv-')
        return self

    def __exit__(self, *a):
        assert os.path.basename(self.d).startswith('cmfv-')
        shutil.rmtree(self.d, ignore_errors=True)

    def put(self, name, data, mode=None):
        p = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        if mode is not None:
            os.chmod(p, mode)
        return p

    def stat(self, name):
        p = os.path.join(self.d, name)
        if not os.path.exists(p):
            return None
        st = os.stat(p)
        with open(p, 'rb') as f:
            return f.read(), st.st_mode & 0o7777, st.st_ino, st.st_mtime_ns

    def listing(self):
        return sorted(os.path.relpath(os.path.join(r, f), self.d)
                      for r, _, fs in os.walk(self.d) for f in fs)
