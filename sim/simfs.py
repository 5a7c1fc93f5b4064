"""An in-memory POSIX-like file system behind the `os` module.

While a World with `.fs` set is active, every path below /simfs and every relative path belongs to the simulated
file system; reading other absolute paths passes through; changing them is refused (class 'escape').
Each operation is a seam event of kind 'fs' (a scheduling point) and may fail with a planned errno or be the point
at which the simulated process crashes (before or after the effect); a crashed process can do nothing any more."""
import builtins
import errno
import io
import os
import pathlib
import shutil
import stat as st
import threading

from . import seams
from .engine import Violation, HarnessError

ROOT = '/simfs'
CWD = '/simfs/work'
ERRNOS = {'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES, 'EIO': errno.EIO, 'EROFS': errno.EROFS,
          'EDQUOT': errno.EDQUOT, 'EMLINK': errno.EMLINK}


def oserr(code, path):
    return OSError(code, os.strerror(code), str(path))


class InjOS(OSError, seams.Injected):
    pass


def injected(code, path):
    # OSError.__new__ maps errno to the subclass only for OSError itself; keep the real subclass visible to handlers
    base = type(OSError(code, 'x'))
    cls = _classes.get(base)
    if cls is None:
        cls = _classes[base] = type('Inj' + base.__name__, (base, seams.Injected), {}) if base is not OSError else InjOS
    return cls(code, 'injected: ' + os.strerror(code), str(path))


_classes = {}


class Node(object):
    __slots__ = ('kind', 'mode', 'data', 'protected', 'ino')

    def __init__(self, kind, mode=0o755, data=None, protected=False, ino=0):
        self.kind, self.mode, self.data, self.protected, self.ino = kind, mode, data, protected, ino


class Proc(object):
    """fault plan and life of one simulated process"""

    def __init__(self, at=None, fault=None):
        self.at, self.fault = at, fault
        self.ops = 0
        self.fired = None
        self.dead = False
        self.pending = False     # crash as soon as the current operation has had its effect


class SimFS(object):
    def __init__(self, sim):
        self.sim = sim
        self.nodes = {ROOT: Node('dir', protected=True), CWD: Node('dir', protected=True)}
        self.procs = {}         # thread ident -> Proc
        self.default = Proc()
        self.last_ino = 10
        self.ops = 0

    # -- direct manipulation by the harness (no events, no faults) --------------------------------------------
    def put(self, path, kind, data=None, mode=0o755, protected=True):
        self.last_ino += 1
        self.nodes[path] = Node(kind, mode, data, protected, self.last_ino)

    def put_dirs(self, path):
        parts = path.split('/')
        for i in range(3, len(parts) + 1):
            q = '/'.join(parts[:i])
            if q not in self.nodes:
                self.put(q, 'dir')
            elif self.nodes[q].kind != 'dir':
                return False
        return True

    def drop(self, path):
        for q in [q for q in self.nodes if q == path or q.startswith(path + '/')]:
            del self.nodes[q]

    def isdir(self, path):
        try:
            q = self.walk(path, root=True)
        except OSError:
            return False
        return self.nodes[q].kind == 'dir'

    def snapshot(self):
        return dict((q, (n.kind, n.mode, n.data, n.ino)) for q, n in self.nodes.items())

    # -- names --------------------------------------------------------------------------------------------------
    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return not p.startswith('/') or p == ROOT or p.startswith(ROOT + '/')

    def abspath(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p == '':
            raise oserr(errno.ENOENT, p)
        if not p.startswith('/'):
            p = CWD + '/' + p
        return p

    def walk(self, path, follow=True, parent=False, root=False, depth=0):
        """canonical name of the node; parent=True: of the would-be entry (its directory must exist)"""
        if depth > 8:
            raise oserr(errno.ELOOP, path)
        p = self.abspath(path)
        slash = p.endswith('/')
        parts = [x for x in p.split('/') if x not in ('', '.')]
        cur = ''
        for i, name in enumerate(parts):
            last = i == len(parts) - 1
            if cur:
                node = self.nodes.get(cur)
                if node is None:
                    raise oserr(errno.ENOENT, path)
                if node.kind != 'dir':
                    raise oserr(errno.ENOTDIR, path)
                if not root and not node.mode & 0o100:
                    raise oserr(errno.EACCES, path)
            if name == '..':
                cur = os.path.dirname(cur) or ROOT
                continue
            nxt = cur + '/' + name
            node = self.nodes.get(nxt)
            if node is not None and node.kind == 'link' and (not last or (follow and not parent) or slash):
                nxt = self.walk(node.data, depth=depth + 1, root=root)
                node = self.nodes[nxt]
            if node is None and not last:
                raise oserr(errno.ENOENT, path)
            cur = nxt
        if not parent and cur not in self.nodes:
            raise oserr(errno.ENOENT, path)
        if slash and not parent and self.nodes[cur].kind == 'file':
            raise oserr(errno.ENOTDIR, path)
        return cur

    # -- events ---------------------------------------------------------------------------------------------------
    def proc(self):
        return self.procs.get(threading.current_thread().name, self.default)

    def enter(self, op, path):
        pr = self.proc()
        if pr.dead:
            raise seams.TaskKilled()
        seams.WORLD.event('fs')
        self.ops += 1
        i = pr.ops
        pr.ops += 1
        self.sim.event('fs', threading.current_thread().name if pr is not self.default else 'main', op,
                       os.fspath(path) if not isinstance(path, int) else path)
        if pr.at is not None and i == pr.at and pr.fired is None:
            f = pr.fault
            self.sim.fired('fs-' + f)
            pr.fired = f
            if f == 'crash-before':
                pr.dead = True
                raise seams.TaskKilled()
            if f == 'crash-after':
                pr.pending = True
                return
            if f == 'interrupt':
                raise seams.make_fault('interrupt')
            raise injected(ERRNOS[f], path)

    # -- operations --------------------------------------------------------------------------------------------------
    def stat(self, path, follow=True):
        self.enter('stat', path)
        q = self.walk(path, follow=follow)
        n = self.nodes[q]
        fmt = {'dir': st.S_IFDIR, 'file': st.S_IFREG, 'link': st.S_IFLNK}[n.kind]
        return os.stat_result((fmt | n.mode, n.ino, 1, 1, 1000, 1000, len(n.data or ''), 0, 0, 0))

    def _writable(self, q, path):
        d = self.nodes.get(os.path.dirname(q))
        if d is None:
            raise oserr(errno.ENOENT, path)
        if d.kind != 'dir':
            raise oserr(errno.ENOTDIR, path)
        if d.mode & 0o300 != 0o300:
            raise oserr(errno.EACCES, path)

    def mkdir(self, path, mode=0o777):
        self.enter('mkdir', path)
        q = self.walk(path, parent=True)
        if q in self.nodes:
            raise oserr(errno.EEXIST, path)
        self._writable(q, path)
        self.last_ino += 1
        self.nodes[q] = Node('dir', mode & ~0o022 & 0o7777, ino=self.last_ino)

    def _gone(self, q):
        n = self.nodes[q]
        if n.protected:
            raise Violation('content-touched', 'existing %s %s was removed or replaced' % (n.kind, q))

    def rmdir(self, path):
        self.enter('rmdir', path)
        q = self.walk(path, parent=True)
        if q not in self.nodes:
            raise oserr(errno.ENOENT, path)
        if self.nodes[q].kind != 'dir':
            raise oserr(errno.ENOTDIR, path)
        if any(x.startswith(q + '/') for x in self.nodes):
            raise oserr(errno.ENOTEMPTY, path)
        self._gone(q)
        self._writable(q, path)
        del self.nodes[q]

    def unlink(self, path):
        self.enter('unlink', path)
        q = self.walk(path, parent=True)
        if q not in self.nodes:
            raise oserr(errno.ENOENT, path)
        if self.nodes[q].kind == 'dir':
            raise oserr(errno.EISDIR, path)
        self._gone(q)
        self._writable(q, path)
        del self.nodes[q]

    def rename(self, a, b):
        self.enter('rename', a)
        p = self.walk(a, parent=True)
        q = self.walk(b, parent=True)
        if p not in self.nodes:
            raise oserr(errno.ENOENT, a)
        if q in self.nodes:
            if self.nodes[p].kind == 'dir':
                if self.nodes[q].kind != 'dir':
                    raise oserr(errno.ENOTDIR, b)
                if any(x.startswith(q + '/') for x in self.nodes):
                    raise oserr(errno.ENOTEMPTY, b)
            elif self.nodes[q].kind == 'dir':
                raise oserr(errno.EISDIR, b)
            self._gone(q)
        self._gone(p)
        self._writable(p, a)
        self._writable(q, b)
        for x in [x for x in self.nodes if x == p or x.startswith(p + '/')]:
            self.nodes[q + x[len(p):]] = self.nodes.pop(x)

    def listdir(self, path='.'):
        self.enter('listdir', path)
        q = self.walk(path)
        if self.nodes[q].kind != 'dir':
            raise oserr(errno.ENOTDIR, path)
        return sorted(x[len(q) + 1:] for x in self.nodes if x.startswith(q + '/') and '/' not in x[len(q) + 1:])

    def readlink(self, path):
        self.enter('readlink', path)
        q = self.walk(path, follow=False)
        if self.nodes[q].kind != 'link':
            raise oserr(errno.EINVAL, path)
        return self.nodes[q].data

    def symlink(self, target, path):
        self.enter('symlink', path)
        q = self.walk(path, parent=True)
        if q in self.nodes:
            raise oserr(errno.EEXIST, path)
        self._writable(q, path)
        self.last_ino += 1
        self.nodes[q] = Node('link', 0o777, os.fspath(target), ino=self.last_ino)

    def access(self, path, mode):
        try:
            self.enter('access', path)
            q = self.walk(path)
        except OSError:
            return False
        m = self.nodes[q].mode
        return all(m & bit for want, bit in ((os.R_OK, 0o400), (os.W_OK, 0o200), (os.X_OK, 0o100)) if mode & want)

    def chmod(self, path, mode):
        self.enter('chmod', path)
        q = self.walk(path)
        if self.nodes[q].protected:
            raise Violation('content-touched', 'mode of existing %s changed' % q)
        self.nodes[q].mode = mode

    def open(self, path, mode='r'):
        self.enter('open', path)
        if any(c in mode for c in 'wax+'):
            q = self.walk(path, parent=True)
            if q in self.nodes:
                if 'x' in mode:
                    raise oserr(errno.EEXIST, path)
                q = self.walk(path)
                n = self.nodes[q]
                if n.kind == 'dir':
                    raise oserr(errno.EISDIR, path)
                if n.protected:
                    raise Violation('content-touched', 'existing file %s opened for writing' % q)
                if 'w' in mode:
                    n.data = ''
            else:
                self._writable(q, path)
                self.last_ino += 1
                n = self.nodes[q] = Node('file', 0o644, '', ino=self.last_ino)
            return _Handle(n, 'b' in mode)
        q = self.walk(path)
        if self.nodes[q].kind == 'dir':
            raise oserr(errno.EISDIR, path)
        d = self.nodes[q].data or ''
        return io.BytesIO(d.encode()) if 'b' in mode else io.StringIO(d)

    def rmtree(self, path):
        for name in self.listdir(path):
            sub = os.path.join(os.fspath(path), name)
            if st.S_ISDIR(self.stat(sub, follow=False).st_mode):
                self.rmtree(sub)
            else:
                self.unlink(sub)
        self.rmdir(path)


def _crash_after(f):
    def g(self, *a, **k):
        try:
            return f(self, *a, **k)
        finally:
            pr = self.proc()
            if pr.pending:
                pr.dead = True
                raise seams.TaskKilled()
    g.__name__ = f.__name__
    return g


for _n in ('stat', 'mkdir', 'rmdir', 'unlink', 'rename', 'listdir', 'readlink', 'symlink', 'access', 'chmod', 'open'):
    setattr(SimFS, _n, _crash_after(getattr(SimFS, _n)))


class _Handle(object):
    def __init__(self, node, binary):
        self.node, self.binary = node, binary

    def write(self, s):
        self.node.data += s.decode() if self.binary else s
        return len(s)

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# -- patching -----------------------------------------------------------------------------------------------------
_done = False


def install():
    """Route the os-level entry points through the active simulated file system (transparent when there is none)."""
    global _done
    if _done:
        return
    _done = True

    def fs():
        w = seams.WORLD
        return getattr(w, 'fs', None) if w is not None else None

    def route(owner, name, sim_call, mutating, nargs=1, static=False):
        real = getattr(owner, name, None)
        if real is None:
            return

        def f(path='.', *a, **k):
            s = fs()
            if s is None or isinstance(path, int):
                return real(path, *a, **k)
            if not s.mine(path):
                if mutating:
                    raise Violation('escape', '%s on %r, outside the requested tree' % (name, path))
                return real(path, *a, **k)
            return sim_call(s, path, *a, **k)
        f.__name__ = name
        f.real = real
        setattr(owner, name, staticmethod(f) if static else f)

    table = [
        ('stat', lambda s, p, *a, **k: s.stat(p, k.get('follow_symlinks', True)), False),
        ('lstat', lambda s, p, *a, **k: s.stat(p, False), False),
        ('mkdir', lambda s, p, mode=0o777, **k: s.mkdir(p, mode), True),
        ('rmdir', lambda s, p, **k: s.rmdir(p), True),
        ('unlink', lambda s, p, **k: s.unlink(p), True),
        ('remove', lambda s, p, **k: s.unlink(p), True),
        ('rename', lambda s, p, q, **k: s.rename(p, q), True),
        ('replace', lambda s, p, q, **k: s.rename(p, q), True),
        ('listdir', lambda s, p='.', **k: s.listdir(p), False),
        ('readlink', lambda s, p, **k: s.readlink(p), False),
        ('access', lambda s, p, mode, **k: s.access(p, mode), False),
        ('chmod', lambda s, p, mode, **k: s.chmod(p, mode), True),
    ]
    for name, call, mut in table:
        route(os, name, call, mut)
    acc = getattr(pathlib, '_NormalAccessor', None)
    inst = getattr(pathlib, '_normal_accessor', None)
    if acc is not None:
        for name, call, mut in table:
            if hasattr(acc, name) and name != 'readlink':
                route(acc, name, call, mut, static=True)
                if inst is not None and name in getattr(inst, '__dict__', {}):
                    delattr(inst, name)
    route(shutil, 'rmtree', lambda s, p, ignore_errors=False, onerror=None, **k: _rmtree(s, p, ignore_errors), True)

    real_symlink = os.symlink

    def symlink(target, path, *a, **k):
        s = fs()
        if s is None:
            return real_symlink(target, path, *a, **k)
        if not s.mine(path):
            raise Violation('escape', 'symlink on %r' % (path,))
        return s.symlink(target, path)
    os.symlink = symlink
    real_getcwd = os.getcwd
    os.getcwd = lambda: CWD if fs() is not None else real_getcwd()
    real_open = builtins.open

    def open_(path, mode='r', *a, **k):
        s = fs()
        if s is None or isinstance(path, int):
            return real_open(path, mode, *a, **k)
        if not s.mine(path):
            if any(c in mode for c in 'wax+'):
                raise Violation('escape', 'open(%r, %r)' % (path, mode))
            return real_open(path, mode, *a, **k)
        return s.open(path, mode)
    builtins.open = open_
    io.open = open_
    real_osopen = os.open

    def osopen(path, flags, *a, **k):
        s = fs()
        if s is not None and s.mine(path):
            raise HarnessError('os.open on the simulated file system is not modelled')
        if s is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            raise Violation('escape', 'os.open(%r)' % (path,))
        return real_osopen(path, flags, *a, **k)
    os.open = osopen
    for name in ('system', 'popen', 'fork', 'posix_spawn', 'execv', 'execve'):
        real = getattr(os, name, None)
        if real is None:
            continue

        def g(*a, _real=real, _name=name, **k):
            if fs() is not None:
                raise HarnessError('os.%s during a file-system simulation' % _name)
            return _real(*a, **k)
        setattr(os, name, g)


def _rmtree(s, p, ignore):
    try:
        s.rmtree(p)
    except OSError:
        if not ignore:
            raise
