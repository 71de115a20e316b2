"""In-memory file system, clock, process pool, queues and processes standing in for the operating system.

Executed like the code under test: symbolically during a check, natively in a replay.  Contents and names may be symbolic.
Every operation that changes the file system is a possible crash point; data written to a file that is not closed yet may be
lost or partly written when the process dies."""
import builtins as _builtins
import bz2 as _bz2
import codecs as _codecs
import collections
import concurrent.futures as _futures
import copy
import datetime as _datetime
import fileinput as _fileinput
import fnmatch as _fnmatch
import glob as _glob
import gzip as _gzip
import io
import linecache as _linecache
import lzma as _lzma
import multiprocessing as _mp
import multiprocessing.pool as _mppool
import os as _os
import pathlib as _pathlib
import pickle as _pickle
import platform as _platform
import queue as _queue
import random as _random
import shutil as _shutil
import stat as _stat
import subprocess as _subprocess
import sys
import tarfile as _tarfile
import tempfile as _tempfile
import threading as _threading
import time as _time
import uuid as _uuid
import zipfile as _zipfile
import zlib as _zlib

import dill as _dill
import greenlet

from sx import api as A
from sx import patching

SLASH = b'/'


def to_b(p):
    if isinstance(p, str):
        if A.MODE == 'conc':
            return p.encode('utf-8', 'surrogateescape')
        for o in OPAQUE:
            if o[0] is p or p == o[0]:
                return o[1]
        return p.encode('utf-8')
    return p


def to_s(b):
    """name as text; a symbolic name with bytes outside ASCII gets a placeholder that leads back to it"""
    if A.MODE == 'conc':
        return b.decode('utf-8', 'surrogateescape')
    if not A.decide(A.disj(*[c >= 128 for c in b])):
        return b.decode('ascii')
    for o in OPAQUE:
        if o[1] is b:
            return o[0]
    OPAQUE.append(('\udc80' * (len(OPAQUE) + 1), b))
    return OPAQUE[-1][0]


OPAQUE = []


class Node(object):
    def __init__(self, kind, mtime, target=None):
        self.kind = kind            # 'f' file, 'd' directory, 'l' symbolic link
        self.mtime = mtime
        self.entries = []           # [name, node]; name is str or bytes
        self.chunks = []            # ('t', str, encoding) ('b', bytes) ('o', object) ('x',) = incomplete object, ('z',) gzip ok
        self.target = target
        self.order = None
        self.ino = None


def name_eq(a, b):
    if isinstance(a, str) != isinstance(b, str):
        a = to_b(a)
        b = to_b(b)
    return A.decide(a == b)


class FS(object):
    def __init__(self, now=1000):
        self.now = now
        self.root = Node('d', now)
        self.home = _os.environ.get('HOME', '/home/x')
        self.cwd = self.home + '/cwd'
        self.crash_at = None
        self.nops = 0
        self.dead = False
        self.open_handles = []
        self.ids = 0
        self.uuids = 0
        self.coarse = False
        self.sched = None
        self.log = []
        self.at_once = None
        self.any_order = False
        self.pool_order = False
        self.preempt = False
        self.pid = 100
        self.on_op = None
        self.fds = {}
        self.makedirs(self.home)
        self.makedirs(self.cwd)
        self.nops = 0

    def point(self):
        """another process may run before the operation that follows"""
        if self.preempt and self.sched is not None:
            self.sched.point()

    # ---------------------------------------------------------------------------------------------- crash points
    def op(self, what):
        if self.dead:
            return False
        self.nops += 1
        if self.crash_at is not None and A.decide(self.crash_at == self.nops):
            self.die(what)
        if self.on_op is not None:
            self.on_op(what)
        return True

    def die(self, what):
        self.dead = True
        k = 0
        for h in self.open_handles:
            h.lose(k)
            k += 1
        self.open_handles = []
        raise A.CrashPoint('died before operation %d: %s' % (self.nops, what))

    def restart(self):
        """the process is started again"""
        self.dead = False
        self.crash_at = None
        self.open_handles = []
        self.nops = 0

    # ---------------------------------------------------------------------------------------------- lookup
    def comps(self, path):
        if hasattr(path, '__fspath__'):
            path = path.__fspath__()
        if isinstance(path, str):
            sep = '/'
            dots = ('', '.')
        else:
            sep = b'/'
            dots = (b'', b'.')
        if not A.decide(path.startswith(sep)):
            path = (self.cwd if isinstance(path, str) else self.cwd.encode()) + sep + path
        return [c for c in path.split(sep) if c not in dots]

    def child(self, d, c):
        for e in d.entries:
            if name_eq(e[0], c):
                return e[1]
        return None

    def find(self, path, follow=True, depth=0):
        if depth > 8:
            return None
        cs = self.comps(path)
        stack = [self.root]
        i = 0
        for c in cs:
            i += 1
            if name_eq(c, '..'):
                if len(stack) > 1:
                    stack.pop()
                continue
            d = stack[-1]
            if d is None or d.kind != 'd':
                return None
            n = self.child(d, c)
            if n is None:
                return None
            if n.kind == 'l' and (follow or i < len(cs)):
                n = self.find(n.target, True, depth + 1)
                if n is None:
                    return None
            stack.append(n)
        return stack[-1]

    def parent(self, path):
        cs = self.comps(path)
        if not cs:
            raise OSError('root')
        d = self.root
        for c in cs[:-1]:
            if d is None or d.kind != 'd':
                raise NotADirectoryError(path)
            d = self.child(d, c)
            if d is not None and d.kind == 'l':
                d = self.find(d.target)
            if d is None:
                raise FileNotFoundError(2, 'No such file or directory', path)
        return d, cs[-1]

    def drop(self, d, c):
        out = []
        for e in d.entries:
            if not name_eq(e[0], c):
                out.append(e)
        d.entries = out
        d.mtime = self.now

    def names(self, d):
        xs = list(d.entries)
        if self.any_order and len(xs) > 1:
            # the order stays the same while the directory does
            if d.order is not None and len(d.order[0]) == len(xs) and all(a is b for a, b in zip(d.order[0], xs)):
                return list(d.order[1])
            out = []
            rest = list(xs)
            while rest:
                out.append(rest.pop(A.choice('order', len(rest))) if len(rest) > 1 else rest.pop())
            d.order = (xs, out)
            return list(out)
        return xs

    # ---------------------------------------------------------------------------------------------- operations
    def makedirs(self, path, mode=0o777, exist_ok=False):
        cs = self.comps(path)
        d = self.root
        i = 0
        made = False
        for c in cs:
            i += 1
            n = self.child(d, c)
            if n is None:
                self.point()
                n = self.child(d, c)
                made = False
            if n is None:
                if not self.op('mkdir'):
                    return
                n = Node('d', self.now)
                d.entries.append([c, n])
                d.mtime = self.now
                made = True
            elif n.kind == 'l':
                n = self.find(n.target)
            if n.kind != 'd':
                raise NotADirectoryError(path) if i < len(cs) else FileExistsError(17, 'File exists', path)
            d = n
        if not made and not exist_ok:
            raise FileExistsError(17, 'File exists', path)

    def mkdir(self, path, mode=0o777, dir_fd=None):
        self.point()
        d, c = self.parent(path)
        if self.child(d, c) is not None:
            raise FileExistsError(17, 'File exists', path)
        if not self.op('mkdir'):
            return
        d.entries.append([c, Node('d', self.now)])
        d.mtime = self.now

    def remove(self, path, dir_fd=None):
        self.point()
        d, c = self.parent(path)
        n = self.child(d, c)
        if n is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        if n.kind == 'd':
            raise IsADirectoryError(path)
        if self.op('remove'):
            self.drop(d, c)

    def rmdir(self, path, dir_fd=None):
        self.point()
        d, c = self.parent(path)
        n = self.child(d, c)
        if n is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        if n.kind != 'd':
            raise NotADirectoryError(path)
        if n.entries:
            raise OSError(39, 'Directory not empty', path)
        if self.op('rmdir'):
            self.drop(d, c)

    def rmtree(self, path, ignore_errors=False, onerror=None):
        self.point()
        n = self.find(path, follow=False)
        if n is None or n.kind != 'd':
            if ignore_errors:
                return
            e = FileNotFoundError(2, 'No such file or directory', path) if n is None else NotADirectoryError(20, 'Not a directory', path)
            if onerror is not None:
                onerror(_os.lstat if n is None else _os.scandir, path, (type(e), e, None))
                return
            raise e
        self._rm(n)
        d, c = self.parent(path)
        if self.op('rmdir'):
            self.drop(d, c)

    def _rm(self, n):
        for e in self.names(n):
            if e[1].kind == 'd':
                self._rm(e[1])
            if not self.op('remove'):
                return
            n.entries = [x for x in n.entries if x is not e]
            n.mtime = self.now

    def rename(self, src, dst, src_dir_fd=None, dst_dir_fd=None):
        self.point()
        d, c = self.parent(src)
        n = self.child(d, c)
        if n is None:
            raise FileNotFoundError(2, 'No such file or directory', src)
        d2, c2 = self.parent(dst)
        o = self.child(d2, c2)
        if o is n:
            return
        if o is not None:
            if o.kind == 'd' and n.kind != 'd':
                raise IsADirectoryError(dst)
            if o.kind == 'd' and o.entries:
                raise OSError(39, 'Directory not empty', dst)
            if o.kind != 'd' and n.kind == 'd':
                raise NotADirectoryError(dst)
        self.log.append(('rename', src, dst))
        if not self.op('rename'):
            return
        if o is not None:
            self.drop(d2, c2)
        self.drop(d, c)
        d2.entries.append([c2, n])
        d2.mtime = self.now

    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(path, int) and not isinstance(path, bool):
            return self.fdopen(path, mode, buffering, encoding, errors, newline)
        kind = [m for m in 'rwax' if m in mode]
        if len(kind) != 1:
            raise ValueError('invalid mode: ' + mode)
        if 'b' in mode and encoding is not None:
            raise ValueError('binary mode does not take an encoding argument')
        self.point()
        n = self.find(path)
        if n is not None and n.kind == 'd':
            raise IsADirectoryError(21, 'Is a directory', path)
        k = kind[0]
        self.log.append((k, path))
        if k == 'r':
            if n is None:
                raise FileNotFoundError(2, 'No such file or directory', path)
            return File(self, n, mode, encoding, errors, newline, path)
        d, c = self.parent(path)
        if k == 'x' and n is not None:
            raise FileExistsError(17, 'File exists', path)
        if n is None:
            if not self.op('create'):
                return File(self, Node('f', self.now), mode, encoding, errors, newline, path)
            n = Node('f', self.now)
            d.entries.append([c, n])
            d.mtime = self.now
        elif k == 'w':
            if self.op('truncate'):
                n.chunks = []
                n.mtime = self.now
        h = File(self, n, mode, encoding, errors, newline, path)
        self.open_handles.append(h)
        return h

    # ---------------------------------------------------------------------------------------------- queries
    def exists(self, path):
        return self.find(path) is not None

    def lexists(self, path):
        return self.find(path, follow=False) is not None

    def isfile(self, path):
        n = self.find(path)
        return n is not None and n.kind == 'f'

    def isdir(self, path):
        n = self.find(path)
        return n is not None and n.kind == 'd'

    def islink(self, path):
        n = self.find(path, follow=False)
        return n is not None and n.kind == 'l'

    def must(self, path, follow=True):
        if isinstance(path, File):
            return path.node
        if isinstance(path, int) and not isinstance(path, bool):
            path = self.fds[path]
        n = self.find(path, follow)
        if n is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        return n

    def getmtime(self, path):
        return self.must(path).mtime

    def getsize(self, path):
        return content_size(self.must(path))

    def stat(self, path, dir_fd=None, follow_symlinks=True):
        return FStat(self, self.must(path, follow_symlinks))

    def lstat(self, path, dir_fd=None):
        return FStat(self, self.must(path, False))

    def access(self, path, mode=0, dir_fd=None, effective_ids=False, follow_symlinks=True):
        return self.find(path) is not None

    def utime(self, path, times=None, ns=None, dir_fd=None, follow_symlinks=True):
        n = self.must(path)
        if self.op('utime'):
            n.mtime = self.now if times is None and ns is None else times[1] if ns is None else ns[1] // 10 ** 9

    def chmod(self, path, mode, dir_fd=None, follow_symlinks=True):
        self.must(path)

    def samefile(self, a, b):
        return self.must(a) is self.must(b)

    def touch(self, path, mode=0o666, exist_ok=True):
        if self.find(path) is None:
            self.open(path, 'a').close()
        elif exist_ok:
            self.utime(path)
        else:
            raise FileExistsError(17, 'File exists', path)

    def symlink(self, src, dst, target_is_directory=False, dir_fd=None):
        d, c = self.parent(dst)
        if self.child(d, c) is not None:
            raise FileExistsError(17, 'File exists', dst)
        if self.op('symlink'):
            d.entries.append([c, Node('l', self.now, src)])
            d.mtime = self.now

    def hardlink(self, src, dst, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        n = self.must(src)
        d, c = self.parent(dst)
        if self.child(d, c) is not None:
            raise FileExistsError(17, 'File exists', dst)
        if self.op('link'):
            d.entries.append([c, n])
            d.mtime = self.now

    def readlink(self, path, dir_fd=None):
        n = self.must(path, False)
        if n.kind != 'l':
            raise OSError(22, 'Invalid argument', path)
        return n.target

    def abspath(self, path):
        path = fspath(path)
        if not A.decide(path.startswith('/' if isinstance(path, str) else b'/')):
            path = _os.path.join(self.cwd if isinstance(path, str) else self.cwd.encode(), path)
        return _os.path.normpath(path)

    def relpath(self, path, start=None):
        return _os.path.relpath(self.abspath(path), self.abspath(start if start is not None else
                                                                 self.cwd if isinstance(path, str) else self.cwd.encode()))

    def realpath(self, path, strict=False):
        path = self.abspath(path)
        sep = '/' if isinstance(path, str) else b'/'
        out = sep
        for c in self.comps(path):
            p = _os.path.join(out, c)
            n = self.find(p, follow=False)
            if n is not None and n.kind == 'l':
                p = self.realpath(_os.path.join(out, n.target))
            out = p
        return out

    def removedirs(self, path):
        self.rmdir(path)
        while True:
            path = _os.path.dirname(path)
            n = self.find(path)
            if n is None or n is self.root or n.entries:
                return
            self.rmdir(path)

    def renames(self, src, dst):
        d = _os.path.dirname(dst)
        if d and not self.exists(d):
            self.makedirs(d)
        self.rename(src, dst)
        d = _os.path.dirname(src)
        n = self.find(d) if d else None
        if n is not None and n.kind == 'd' and not n.entries:
            self.removedirs(d)

    def scandir(self, path='.'):
        n = self.must(path)
        if n.kind != 'd':
            raise NotADirectoryError(20, 'Not a directory', path)
        path = fspath(path)
        return Scan([DirEntry(self, path, self.as_type(e[0], path)) for e in self.names(n)])

    # --- shutil
    def copyfile(self, src, dst, follow_symlinks=True):
        n = self.must(src)
        if n.kind == 'd':
            raise IsADirectoryError(21, 'Is a directory', src)
        with self.open(dst, 'wb') as f:
            if f.node is n:
                raise _shutil.SameFileError('same file')
            f.pending = f.pending + n.chunks
        return dst

    def copy(self, src, dst, follow_symlinks=True):
        if self.isdir(dst):
            dst = _os.path.join(dst, _os.path.basename(src))
        return self.copyfile(src, dst)

    def copy2(self, src, dst, follow_symlinks=True):
        dst = self.copy(src, dst)
        n = self.must(src)
        self.utime(dst, (n.mtime, n.mtime))
        return dst

    def copytree(self, src, dst, symlinks=False, ignore=None, copy_function=None, ignore_dangling_symlinks=False, dirs_exist_ok=False):
        names = self.listdir(src)
        skip = ignore(src, names) if ignore is not None else ()
        self.makedirs(dst, exist_ok=dirs_exist_ok)
        for x in names:
            if x in skip:
                continue
            if self.isdir(_os.path.join(src, x)):
                self.copytree(_os.path.join(src, x), _os.path.join(dst, x), symlinks, ignore, copy_function,
                              ignore_dangling_symlinks, dirs_exist_ok)
            else:
                (copy_function or self.copy2)(_os.path.join(src, x), _os.path.join(dst, x))
        return dst

    def move(self, src, dst, copy_function=None):
        if self.isdir(dst):
            dst = _os.path.join(dst, _os.path.basename(fspath(src).rstrip('/')))
            if self.lexists(dst):
                raise _shutil.Error("Destination path '%s' already exists" % dst)
        self.rename(src, dst)
        return dst

    # --- glob
    def glob(self, pathname, root_dir=None, dir_fd=None, recursive=False):
        out = []
        base = '/' if pathname.startswith('/') else ''
        self._glob(base, [p for p in pathname.split('/') if p != ''], recursive, False, out)
        return out

    def iglob(self, pathname, root_dir=None, dir_fd=None, recursive=False):
        return iter(self.glob(pathname, root_dir, dir_fd, recursive))

    def _glob(self, base, parts, recursive, hidden, out):
        if not parts:
            if base and self.lexists(base):
                out.append(base)
            return
        p = parts[0]
        if p == '**' and recursive:
            self._glob(base, parts[1:], recursive, hidden, out)
            for x in self._ls(base):
                if (hidden or not A.decide(x.startswith('.'))) and self.isdir(_os.path.join(base, x)):
                    self._glob(_os.path.join(base, x), parts, recursive, hidden, out)
                elif len(parts) == 1 and not hidden and not A.decide(x.startswith('.')):
                    out.append(_os.path.join(base, x))
        elif '*' in p or '?' in p or '[' in p:
            for x in self._ls(base):
                if not hidden and not p.startswith('.') and A.decide(x.startswith('.')):
                    continue
                if p == '*' or _fnmatch.fnmatchcase(x, p):
                    if len(parts) == 1 or self.isdir(_os.path.join(base, x)):
                        self._glob(_os.path.join(base, x), parts[1:], recursive, hidden, out)
        else:
            self._glob(_os.path.join(base, p), parts[1:], recursive, hidden, out)

    def _ls(self, base):
        return self.listdir(base or '.') if self.isdir(base or '.') else []

    # --- descriptors and temporary files
    def os_open(self, path, flags, mode=0o777, dir_fd=None):
        n = self.find(path)
        if flags & _os.O_CREAT:
            if n is not None and flags & _os.O_EXCL:
                raise FileExistsError(17, 'File exists', path)
            if n is None:
                self.open(path, 'w').close()
            elif flags & _os.O_TRUNC:
                self.open(path, 'w').close()
        elif n is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        fd = 1000 + len(self.fds)
        self.fds[fd] = path
        return fd

    def fdopen(self, fd, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if fd not in self.fds:
            A.unsupported('open(%r)' % fd)
        return self.open(self.fds[fd], mode, buffering, encoding, errors, newline)

    def os_close(self, fd):
        if fd not in self.fds:
            raise OSError(9, 'Bad file descriptor')

    def os_write(self, fd, data):
        with self.open(self.fds[fd], 'ab') as f:
            return f.write(data)

    def tmpname(self, suffix, prefix, dir):
        self.ids += 1
        return _os.path.join(dir or '/tmp', (prefix or 'tmp') + 'x%07d' % self.ids + (suffix or ''))

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        p = self.tmpname(suffix, prefix, dir)
        self.makedirs(_os.path.dirname(p), exist_ok=True)
        self.mkdir(p)
        return p

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        p = self.tmpname(suffix, prefix, dir)
        self.makedirs(_os.path.dirname(p), exist_ok=True)
        return self.os_open(p, _os.O_CREAT | _os.O_EXCL), p

    def listdir(self, path='.'):
        n = self.must(path)
        if n.kind != 'd':
            raise NotADirectoryError(20, 'Not a directory', path)
        path = fspath(path)
        return [self.as_type(e[0], path) for e in self.names(n)]

    def as_type(self, name, like):
        if isinstance(like, str):
            if isinstance(name, str):
                return name
            return to_s(name)
        return to_b(name)

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        top = fspath(top)
        n = self.find(top)
        if n is None or n.kind != 'd':
            if onerror is not None:
                onerror(FileNotFoundError(2, 'No such file or directory', top) if n is None else
                        NotADirectoryError(20, 'Not a directory', top))
            return
        dirs = []
        files = []
        for e in self.names(n):
            x = e[1]
            if x.kind == 'l':
                x = self.find(x.target)
            if x is not None and x.kind == 'd':
                dirs.append(self.as_type(e[0], top))
            else:
                files.append(self.as_type(e[0], top))
        if topdown:
            yield top, dirs, files
        for d in dirs:
            p = _os.path.join(top, d)
            if followlinks or not self.islink(p):
                for x in self.walk(p, topdown, onerror, followlinks):
                    yield x
        if not topdown:
            yield top, dirs, files

    # ---------------------------------------------------------------------------------------------- for harnesses
    def put(self, path, content=None, mtime=None, obj=None):
        """create a file directly"""
        cs = self.comps(path)
        d = self.root
        for c in cs[:-1]:
            n = self.child(d, c)
            if n is None:
                n = Node('d', self.now)
                d.entries.append([c, n])
            d = n
        n = Node('f', self.now if mtime is None else mtime)
        if content is not None:
            if isinstance(content, str):
                n.chunks = [('t', content, 'utf-8')]
            else:
                n.chunks = [('b', content)]
        if obj is not None:
            n.chunks = [('o', obj)]
        o = self.child(d, cs[-1])
        if o is not None and o.kind == 'f':
            d.entries = [e for e in d.entries if e[1] is not o]
        d.entries.append([cs[-1], n])
        return n

    def put_gz(self, path, obj):
        n = self.put(path)
        n.chunks = [('z',), ('o', obj), ('ze',)]
        return n

    def link(self, path, target):
        d, c = self.parent(path)
        d.entries.append([c, Node('l', self.now, target)])

    def text(self, path):
        n = self.find(path)
        if n is None:
            return None
        return content_text(n.chunks, 'utf-8', 'strict')

    def tree(self, path):
        """relative names of all files below path"""
        out = []
        n = self.find(path)
        if n is not None:
            self._tree(n, '', out)
        return out

    def _tree(self, n, pre, out):
        for e in n.entries:
            nm = e[0] if isinstance(e[0], str) else to_s(e[0])
            if e[1].kind == 'd':
                self._tree(e[1], pre + nm + '/', out)
            else:
                out.append(pre + nm)


def norm_enc(e):
    e = (e or 'utf-8').lower().replace('_', '-')
    return {'utf8': 'utf-8', 'latin-1': 'iso-8859-1', 'latin1': 'iso-8859-1'}.get(e, e)


def fspath(p):
    return p.__fspath__() if hasattr(p, '__fspath__') else p


class Blob(object):
    """bytes whose value is not modelled: pickled or compressed data (chunks as in Node)"""
    def __init__(self, chunks):
        self.chunks = chunks

    def __bool__(self):
        return len(self.chunks) > 0

    def __add__(self, o):
        return Blob(self.chunks + as_chunks(o))

    def __radd__(self, o):
        return Blob(as_chunks(o) + self.chunks)

    def __eq__(self, o):
        if isinstance(o, Blob):
            return self.chunks == o.chunks
        return not self.chunks and o == b''

    def __ne__(self, o):
        return not self == o

    def __len__(self):
        A.unsupported('length of pickled data')

    def __getitem__(self, i):
        A.unsupported('parts of pickled data')

    def __iter__(self):
        A.unsupported('parts of pickled data')

    def __hash__(self):
        A.unsupported('hash of pickled data')

    def __getattr__(self, n):
        if n[:2] == '__':
            raise AttributeError(n)
        A.unsupported('method of pickled data: ' + n)


def as_chunks(x):
    return list(x.chunks) if isinstance(x, Blob) else [('b', x)] if len(x) else []


def opaque(chunks):
    return len([c for c in chunks if c[0] != 't' and c[0] != 'b']) > 0


def content_bytes(chunks):
    if opaque(chunks):
        return Blob(list(chunks))
    out = b''
    for c in chunks:
        out = out + (c[1].encode(c[2]) if c[0] == 't' else c[1])
    return out


def content_size(n):
    if n.kind != 'f':
        return 4096
    k = 0
    for c in n.chunks:
        k += len(c[1].encode(c[2])) if c[0] == 't' else len(c[1]) if c[0] == 'b' else 64
    return k


def content_text(chunks, encoding, errors):
    if len([c for c in chunks if c[0] == 't' and c[2] == encoding]) == len(chunks):
        return ''.join([c[1] for c in chunks])
    if opaque(chunks):
        raise UnicodeDecodeError('utf-8', b'\x80', 0, 1, 'pickled data read as text')
    return content_bytes(chunks).decode(encoding, errors or 'strict')


def translate_newlines(s):
    if A.MODE == 'conc' or '\r' not in s:
        return s.replace('\r\n', '\n').replace('\r', '\n')
    out = []
    i = 0
    while i < len(s):
        if A.decide(s[i] == '\r'):
            out.append('\n')
            if i + 1 < len(s) and A.decide(s[i + 1] == '\n'):
                i += 1
        else:
            out.append(s[i])
        i += 1
    return ''.join(out)


class File(object):
    def __init__(self, fs, node, mode, encoding, errors, newline, path):
        self.fs = fs
        self.node = node
        self.mode = mode
        self.encoding = norm_enc(encoding)
        self.errors = errors
        self.newline = newline
        self.name = path
        self.closed = False
        self.pending = []
        self.managed = False
        self.data = None
        self.pos = 0
        self.opos = 0

    def binary(self):
        return 'b' in self.mode

    # --- context
    def __enter__(self):
        self.managed = True
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def readable(self):
        return 'r' in self.mode or '+' in self.mode

    def writable(self):
        return 'r' not in self.mode or '+' in self.mode

    # --- writing
    def write(self, x):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not self.writable():
            raise io.UnsupportedOperation('not writable')
        if self.binary():
            if isinstance(x, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            if isinstance(x, Blob):
                self.pending = self.pending + copy.deepcopy(x.chunks)
                self.unmanaged()
                return len(x.chunks)
            self.pending.append(('b', x))
        else:
            if not isinstance(x, str):
                raise TypeError('write() argument must be str')
            if self.encoding != 'utf-8' and self.encoding != 'iso-8859-1':
                x.encode(self.encoding, self.errors or 'strict')
            elif not A.decide(A.all_chars(x, [(0, 0xD7FF), (0xE000, 0x10FFFF)]) if self.encoding == 'utf-8' else
                              A.all_chars(x, [(0, 255)])):
                raise UnicodeEncodeError(self.encoding, '?', 0, 1, 'not encodable')
            self.pending.append(('t', x, self.encoding))
        return len(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def put_object(self, obj):
        if not self.binary():
            raise TypeError('write() argument must be str, not bytes')
        if not self.writable():
            raise io.UnsupportedOperation('write')
        self.pending.append(('o', copy.deepcopy(obj)))
        self.unmanaged()

    def unmanaged(self):
        if not self.managed:
            # a handle nobody keeps is closed at once or, with a garbage collector such as the one of PyPy, much later
            if self.fs.at_once is None:
                self.fs.at_once = A.flag('closed at once')
            if self.fs.at_once:
                self.flush()

    def flush(self):
        if not self.pending:
            return
        self.fs.point()
        if self.fs.op('write'):
            self.node.chunks = self.node.chunks + self.pending
            self.node.mtime = self.fs.now
            self.pending = []

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.fs.dead:
            return
        self.flush()
        if self.fs.dead:
            return
        self.fs.open_handles = [h for h in self.fs.open_handles if h is not self]

    def lose(self, k):
        """the process dies: some prefix of what was not flushed has reached the disk"""
        n = len(self.pending)
        if not n:
            return
        i = A.choice('kept', n + 1)
        kept = self.pending[:i]
        if i < n:
            c = self.pending[i]
            if c[0] == 'o':
                if A.flag('partial'):
                    kept.append(('x',))
            elif c[0] in ('t', 'b') and len(c[1]) > 0:
                m = len(c[1])
                if m <= 8:
                    j = A.choice('prefix', m)
                else:
                    j = A.pick('prefix', [0, 1, m // 2, m - 1])
                if j:
                    kept.append((c[0], c[1][:j]) + tuple(c[2:]))
        if kept:
            self.node.chunks = self.node.chunks + kept
            self.node.mtime = self.fs.now

    # --- reading
    def _load(self):
        if not self.readable():
            raise io.UnsupportedOperation('not readable')
        if self.data is None:
            if self.binary():
                self.data = content_bytes(self.node.chunks)
            else:
                s = content_text(self.node.chunks, self.encoding, self.errors)
                if self.newline is None:
                    s = translate_newlines(s)
                self.data = s
        return self.data

    def read(self, n=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        d = self._load()
        if isinstance(d, Blob):
            if n is not None and n >= 0:
                A.unsupported('parts of pickled data')
            d = Blob(d.chunks[self.opos:])
            self.opos += len(d.chunks)
            return d if d.chunks else b''
        if n is None or n < 0:
            r = d[self.pos:]
            self.pos = len(d)
        else:
            r = d[self.pos:self.pos + n]
            self.pos += len(r)
        return r

    def seek(self, off, whence=0):
        self.flush()
        self.data = None
        if off == 0 and whence == 0:
            self.pos = self.opos = 0
        elif off == 0 and whence == 2:
            self.pos = len(self._load())
        elif whence == 0 and self.readable() and not self.writable():
            self.pos = off
        else:
            A.unsupported('seek')
        return self.pos

    def tell(self):
        if not self.readable() or self.writable():
            A.unsupported('tell')
        return self.pos

    def truncate(self, size=None):
        if size != 0:
            A.unsupported('truncate')
        self.flush()
        if self.fs.op('truncate'):
            self.node.chunks = []
        return 0

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        return self

    @property
    def buffer(self):
        A.unsupported('file.buffer')

    def readline(self, size=-1):
        d = self._load()
        nl = b'\n' if self.binary() else '\n'
        i = self.pos
        while i < len(d):
            i += 1
            if A.decide(d[i - 1:i] == nl):
                break
        r = d[self.pos:i]
        self.pos = i
        return r

    def readlines(self):
        return [l for l in self]

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if len(l) == 0:
            raise StopIteration
        return l

    def get_object(self):
        if not self.binary():
            raise TypeError('a text file does not hold pickled data')
        self.opos += 1
        return object_of(self.node.chunks, self.opos - 1)


def object_of(chunks, i):
    if i >= len(chunks):
        raise EOFError('Ran out of input')
    c = chunks[i]
    if c[0] == 'o':
        return copy.deepcopy(c[1])
    if c[0] == 'x':
        # depends on where it was cut
        raise [_pickle.UnpicklingError('pickle data was truncated'), EOFError('Ran out of input'),
               IndexError('pop from empty list')][A.choice('truncated', 3)]
    raise _pickle.UnpicklingError('invalid load key')


class FBytesIO(File):
    def __init__(self, initial_bytes=b''):
        n = Node('f', CUR.now)
        n.chunks = as_chunks(initial_bytes)
        File.__init__(self, CUR, n, 'r+b', None, None, None, '<memory>')
        self.managed = True

    def flush(self):
        self.node.chunks = self.node.chunks + self.pending
        self.pending = []
        self.data = None

    def getvalue(self):
        self.flush()
        return content_bytes(self.node.chunks)

    getbuffer = getvalue

    def get_object(self):
        self.flush()
        return File.get_object(self)


class GzFile(object):
    def __init__(self, filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None, encoding=None, errors=None, newline=None):
        self.fs = CUR
        self.text = mode is not None and 't' in mode
        mode = (mode or 'rb').replace('t', '').replace('b', '')
        self.own = fileobj is None
        if hasattr(filename, 'write') or hasattr(filename, 'read'):
            fileobj = filename
            self.own = False
        self.f = self.fs.open(filename, mode + 'b') if self.own else fileobj
        self.f.managed = True
        self.name = filename
        self.mode = mode
        self.closed = False
        self.args = (encoding, errors, newline)
        self.inner = None
        if mode != 'r':
            self.f.pending.append(('z',))
            if self.text:
                self.inner = File(self.fs, Node('f', self.fs.now), 'w', encoding, errors, newline, filename)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        if not self.closed:
            self.closed = True
            if self.mode != 'r':
                self.f.pending.append(('ze',))
            if self.own:
                self.f.close()

    def flush(self):
        self.f.flush()

    def write(self, x):
        if self.inner is not None:
            r = self.inner.write(x)
            self.f.pending = self.f.pending + self.inner.pending
            self.inner.pending = []
            return r
        return self.f.write(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def put_object(self, obj):
        if self.text:
            raise TypeError('write() argument must be str, not bytes')
        self.f.put_object(obj)

    def contents(self):
        """what is read: the uncompressed data as a file"""
        if self.mode != 'r':
            raise OSError(9, 'read() on write-only GzipFile object')
        if self.inner is None:
            n = Node('f', self.fs.now)
            n.chunks = gunzip(self.f.node.chunks)
            self.inner = File(self.fs, n, 'r' if self.text else 'rb', self.args[0], self.args[1], self.args[2], self.name)
        return self.inner

    def read(self, n=-1):
        return self.contents().read(n)

    def readline(self, size=-1):
        return self.contents().readline()

    def readlines(self):
        return self.contents().readlines()

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.contents())

    def get_object(self):
        return self.contents().get_object()


def gunzip(n):
    if not n:
        return []
    if n[0][0] != 'z':
        raise _gzip.BadGzipFile('Not a gzipped file')
    if not [c for c in n if c[0] == 'ze']:
        raise EOFError('Compressed file ended before the end-of-stream marker was reached')
    return [c for c in n if c[0] != 'z' and c[0] != 'ze']


def f_gzip_open(filename, mode='rb', compresslevel=9, encoding=None, errors=None, newline=None):
    return GzFile(filename, mode, compresslevel, encoding=encoding, errors=errors, newline=newline)


def f_compress(data, compresslevel=9, mtime=None):
    return Blob([('z',)] + as_chunks(data) + [('ze',)])


def f_decompress(data):
    return content_bytes(gunzip(as_chunks(data)))


class FStat(object):
    st_nlink = 1
    st_uid = st_gid = 0
    st_dev = 1

    def __init__(self, fs, n):
        self.fs = fs
        self.n = n
        self.st_mtime = n.mtime
        self.st_mode = {'f': _stat.S_IFREG | 0o644, 'd': _stat.S_IFDIR | 0o755, 'l': _stat.S_IFLNK | 0o777}[n.kind]

    @property
    def st_size(self):
        return content_size(self.n)

    @property
    def st_ino(self):
        if self.n.ino is None:
            self.fs.ids += 1
            self.n.ino = 5000 + self.fs.ids
        return self.n.ino

    @property
    def st_mtime_ns(self):
        return self.st_mtime * 10 ** 9

    @property
    def st_atime(self):
        return self.st_mtime

    st_ctime = st_birthtime = st_atime

    def __getitem__(self, i):
        return [self.st_mode, self.st_ino, 1, 1, 0, 0, self.st_size, self.st_mtime, self.st_mtime, self.st_mtime][i]


class DirEntry(object):
    def __init__(self, fs, path, name):
        self.fs = fs
        self.name = name
        self.path = _os.path.join(path, name)

    def __fspath__(self):
        return self.path

    def _node(self, follow):
        return self.fs.find(self.path, follow)

    def is_dir(self, follow_symlinks=True):
        n = self._node(follow_symlinks)
        return n is not None and n.kind == 'd'

    def is_file(self, follow_symlinks=True):
        n = self._node(follow_symlinks)
        return n is not None and n.kind == 'f'

    def is_symlink(self):
        n = self._node(False)
        return n is not None and n.kind == 'l'

    def stat(self, follow_symlinks=True):
        return self.fs.stat(self.path, follow_symlinks=follow_symlinks)

    def inode(self):
        return self.stat(False).st_ino


class Scan(object):
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return self

    def __next__(self):
        if not self.xs:
            raise StopIteration
        return self.xs.pop(0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class TempDir(object):
    def __init__(self, suffix=None, prefix=None, dir=None, ignore_cleanup_errors=False):
        self.name = CUR.mkdtemp(suffix, prefix, dir)

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()
        return False

    def cleanup(self):
        if CUR.exists(self.name):
            CUR.rmtree(self.name)


class TempFile(File):
    def __init__(self, mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, errors=None):
        fd, path = CUR.mkstemp(suffix, prefix, dir)
        File.__init__(self, CUR, CUR.find(path), mode, encoding, errors, newline, path)
        CUR.open_handles.append(self)
        self.delete = delete

    def close(self):
        if not self.closed:
            File.close(self)
            if self.delete and self.fs.exists(self.name):
                self.fs.remove(self.name)


class FPath(object):
    """pathlib.Path"""
    def __init__(self, *args):
        p = '.'
        for a in args:
            p = _os.path.join(p, fspath(a))
        self.p = _tidy(p)

    def __fspath__(self):
        return self.p

    def __str__(self):
        return self.p

    def __format__(self, spec):
        return format(self.p, spec)

    def __repr__(self):
        return "PosixPath('" + self.p + "')"

    def as_posix(self):
        return self.p

    def __bytes__(self):
        return to_b(self.p)

    def __eq__(self, o):
        return isinstance(o, FPath) and self.p == o.p

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.p.split('/') < o.p.split('/')

    def __gt__(self, o):
        return o < self

    def __le__(self, o):
        return not o < self

    def __ge__(self, o):
        return not self < o

    def __hash__(self):
        return hash(self.p)

    def __truediv__(self, o):
        return FPath(self.p, o)

    def __rtruediv__(self, o):
        return FPath(o, self.p)

    def joinpath(self, *args):
        return FPath(self.p, *args)

    @property
    def name(self):
        return '' if self.p in ('.', '/') else _os.path.basename(self.p)

    @property
    def parent(self):
        return FPath(_os.path.dirname(self.p))

    @property
    def parents(self):
        out = []
        p = self
        while p.parent.p != p.p:
            p = p.parent
            out.append(p)
        return out

    @property
    def parts(self):
        a = A.decide(self.p.startswith('/'))
        return tuple((['/'] if a else []) + [x for x in self.p.split('/') if x != '' and x != '.'])

    @property
    def anchor(self):
        return '/' if A.decide(self.p.startswith('/')) else ''

    root = anchor
    drive = ''

    def _dot(self):
        n = self.name
        i = n.rfind('.')
        return (n, i) if 0 < i < len(n) - 1 else (n, len(n))

    @property
    def suffix(self):
        n, i = self._dot()
        return n[i:]

    @property
    def suffixes(self):
        n = self.name
        if n.endswith('.'):
            return []
        return ['.' + x for x in n.lstrip('.').split('.')[1:]]

    @property
    def stem(self):
        n, i = self._dot()
        return n[:i]

    def with_name(self, name):
        return FPath(_os.path.join(_os.path.dirname(self.p), name))

    def with_suffix(self, suffix):
        return self.with_name(self.stem + suffix)

    def with_stem(self, stem):
        return self.with_name(stem + self.suffix)

    def is_absolute(self):
        return A.decide(self.p.startswith('/'))

    def relative_to(self, *other):
        o = FPath(*other).parts
        p = self.parts
        if len(p) < len(o) or not all([A.decide(x == y) for x, y in zip(p, o)]):
            raise ValueError('%r is not in the subpath of %r' % (self.p, o))
        return FPath(*p[len(o):])

    def is_relative_to(self, *other):
        try:
            self.relative_to(*other)
            return True
        except ValueError:
            return False

    def match(self, pattern):
        return _fnmatch.fnmatchcase(self.name, pattern)

    @staticmethod
    def cwd():
        return FPath(CUR.cwd)

    @staticmethod
    def home():
        return FPath(CUR.home)

    def absolute(self):
        return FPath(CUR.cwd, self.p)

    def resolve(self, strict=False):
        return FPath(CUR.realpath(self.p))

    def expanduser(self):
        return FPath(_os.path.expanduser(self.p))

    def exists(self):
        return CUR.exists(self.p)

    def is_file(self):
        return CUR.isfile(self.p)

    def is_dir(self):
        return CUR.isdir(self.p)

    def is_symlink(self):
        return CUR.islink(self.p)

    def stat(self, follow_symlinks=True):
        return CUR.stat(self.p, follow_symlinks=follow_symlinks)

    def lstat(self):
        return CUR.lstat(self.p)

    def samefile(self, o):
        return CUR.samefile(self.p, fspath(o))

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if parents:
            CUR.makedirs(self.p, mode, exist_ok)
        elif not (exist_ok and CUR.isdir(self.p)):
            CUR.mkdir(self.p)

    def rmdir(self):
        CUR.rmdir(self.p)

    def unlink(self, missing_ok=False):
        if not (missing_ok and not CUR.lexists(self.p)):
            CUR.remove(self.p)

    def rename(self, target):
        CUR.rename(self.p, fspath(target))
        return FPath(target)

    replace = rename

    def touch(self, mode=0o666, exist_ok=True):
        CUR.touch(self.p, mode, exist_ok)

    def symlink_to(self, target, target_is_directory=False):
        CUR.symlink(fspath(target), self.p)

    def readlink(self):
        return FPath(CUR.readlink(self.p))

    def chmod(self, mode):
        CUR.chmod(self.p, mode)

    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        return CUR.open(self.p, mode, buffering, encoding, errors, newline)

    def read_text(self, encoding=None, errors=None):
        with self.open('r', -1, encoding, errors) as f:
            return f.read()

    def read_bytes(self):
        with self.open('rb') as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        with self.open('w', -1, encoding, errors, newline) as f:
            return f.write(data)

    def write_bytes(self, data):
        with self.open('wb') as f:
            return f.write(data)

    def iterdir(self):
        for x in CUR.listdir(self.p):
            yield FPath(self.p, x)

    def glob(self, pattern):
        out = []
        CUR._glob(self.p, [p for p in pattern.split('/') if p != ''], True, True, out)
        for x in out:
            yield FPath(x)

    def rglob(self, pattern):
        return self.glob('**/' + pattern)


def _tidy(p):
    """as pathlib does: no empty and no '.' components; '..' stays"""
    a = A.decide(p.startswith('/'))
    cs = [c for c in p.split('/') if c != '' and c != '.']
    return ('/' if a else '') + '/'.join(cs) or '.'


CUR = None


class NS(object):
    """a module with some of its functions replaced; what is neither replaced nor known to be harmless is not supported"""
    def __init__(self, real, safe, **repl):
        self.__dict__['_real'] = real
        self.__dict__['_safe'] = safe
        for k, v in repl.items():
            self.__dict__[k] = v

    def __getattr__(self, n):
        r = getattr(self._real, n)
        if self._safe is ALL or n in self._safe or harmless(r):
            return r
        return Missing(self._real.__name__ + '.' + n)


ALL = object()


def harmless(r):
    return not callable(r) or isinstance(r, type) and issubclass(r, BaseException)


class Missing(object):
    """a function of the operating system interface without a stand-in"""
    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        A.unsupported('no stand-in for ' + self._name)

    def __getattr__(self, n):
        if n[:2] == '__':
            raise AttributeError(n)
        return Missing(self._name + '.' + n)


# -------------------------------------------------------------------------------------------------- processes
class Sched(object):
    """processes as coroutines; `pick` decides who runs next at every visible operation"""
    def __init__(self, fs, free=True, max_switches=10 ** 6):
        self.fs = fs
        self.procs = []
        self.free = free
        self.cur = None
        self.timeouts = 0
        self.atomic = 0
        self.failed = []
        self.nsw = 0
        self.max_switches = max_switches

    def spawn(self, p):
        # as after a fork: the process works on its own copy of everything but queues, locks and shared values
        own = {k: v for k, v in p.__dict__.items() if k[:1] != '_' or k in ('_target', '_args', '_kwargs')}
        q = object.__new__(type(p))
        q.__dict__.update(p.__dict__)
        q.__dict__.update(copy.deepcopy(own))
        p._child = q
        self._start(q)

    def _start(self, p):
        self.procs.append(p)
        p._g = None
        p._done = False
        p._wait = None
        p._timeout = False

    def _body(self, p):
        try:
            p.run()
        except Exception as e:
            self.failed.append((p, e))
            p._exit = 1
        p._done = True

    def runnable(self):
        out = []
        for p in self.procs:
            if not p._done and (p._wait is None or p._wait()):
                out.append(p)
        return out

    def until(self, target):
        target = target._child
        while not target._done:
            rs = self.runnable()
            if not rs:
                ws = [p for p in self.procs if not p._done and p._timeout is not None]
                if not ws:
                    A.fail('deadlock: every process waits forever')
                # nothing can happen before the shortest timeout
                m = min([p._timeout for p in ws])
                p = [p for p in ws if p._timeout == m][0]
                p._wait = None
                p._expired = True
                self.timeouts += 1
                rs = [p]
            if self.cur in rs and (not self.free or self.nsw >= self.max_switches):
                p = self.cur
            elif len(rs) == 1:
                p = rs[0]
            elif self.cur in rs:
                # index 0: continue the current process
                others = [self.cur] + [x for x in rs if x is not self.cur]
                k = A.choice('sched', len(others))
                p = others[k]
                if k:
                    self.nsw += 1
            elif not self.free:
                p = rs[0]
            else:
                p = rs[A.choice('sched', len(rs))]
            self.cur = p
            if p._g is None:
                p._g = greenlet.greenlet(self._body)
                p._main = greenlet.getcurrent()
                p._g.switch(p)
            else:
                p._g.switch()

    def inside(self):
        return self.cur is not None and self.cur._g is not None and greenlet.getcurrent() is self.cur._g

    def point(self):
        """a visible operation follows"""
        if self.inside() and not self.atomic:
            p = self.cur
            p._wait = None
            p._g.parent.switch()

    def wait(self, cond, timeout):
        """block until cond(); False when the timeout expires first"""
        if not self.inside():
            if not cond():
                if timeout is None:
                    A.fail('the main process waits forever')
                return False
            return True
        if cond():
            return True
        p = self.cur
        p._wait = cond
        p._timeout = timeout
        p._expired = False
        p._g.parent.switch()
        p._wait = None
        p._timeout = None
        return not p._expired


class MQueue(object):
    def __deepcopy__(self, memo):
        return self

    def __init__(self, maxsize=0, **k):
        self.items = []
        self.open_tasks = 0
        self.fs = CUR

    def put(self, x, block=True, timeout=None):
        self.fs.sched.point()
        self.items.append(copy.deepcopy(x))
        self.open_tasks += 1

    def put_nowait(self, x):
        self.put(x)

    def get(self, block=True, timeout=None):
        self.fs.sched.point()
        if not self.items:
            if not block or not self.fs.sched.wait(self._nonempty, timeout):
                raise _queue.Empty()
        return self.items.pop(0)

    def _nonempty(self):
        return len(self.items) > 0

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        self.fs.sched.point()
        return len(self.items)

    def empty(self):
        self.fs.sched.point()
        return not self.items

    def task_done(self):
        self.open_tasks -= 1

    def _finished(self):
        return self.open_tasks <= 0

    def join(self):
        self.fs.sched.wait(self._finished, None)

    def full(self):
        return False

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class MLock(object):
    def __deepcopy__(self, memo):
        return self

    def __init__(self, *a, **k):
        self.held = False
        self.fs = CUR

    def _free(self):
        return not self.held

    def acquire(self, block=True, timeout=None):
        s = self.fs.sched
        s.point()
        if self.held:
            if not block or not s.wait(self._free, timeout):
                return False
        self.held = True
        # everything that uses the lock waits: the section is atomic for them
        s.atomic += 1
        return True

    def release(self):
        self.held = False
        self.fs.sched.atomic -= 1

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


class MValue(object):
    def __deepcopy__(self, memo):
        return self

    def __init__(self, typ, value=0, lock=True):
        self._v = value
        self._lock = MLock()

    def get_lock(self):
        return self._lock

    @property
    def value(self):
        CUR.sched.point()
        return self._v

    @value.setter
    def value(self, v):
        CUR.sched.point()
        self._v = v


class MProcess(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        CUR.sched.spawn(self)

    def join(self, timeout=None):
        CUR.sched.until(self)

    def is_alive(self):
        return p_alive(self)

    @property
    def exitcode(self):
        return p_exit(self)


def p_alive(self):
    return not self._child._done


def p_exit(self):
    return getattr(self._child, '_exit', 0) if self._child._done else None


def p_start(self):
    CUR.sched.spawn(self)


def p_join(self, timeout=None):
    CUR.sched.until(self)


def first(x):
    return x[0]


class FPool(object):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.fs = CUR
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if initializer:
            initializer(*initargs)
        self.n = processes or self.fs.ncpu

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def results(self, f, tasks):
        """(number of the task, its result) in the order in which the processes finish them"""
        done = []
        if not self.fs.preempt or len(tasks) < 2:
            for i, x in enumerate(tasks):
                done.append((i, f(x)))
            return done
        todo = [(i, x) for i, x in enumerate(tasks)]
        errors = []

        def work():
            while todo and not errors:
                i, x = todo.pop(0)
                try:
                    done.append((i, f(x)))
                except Exception as e:
                    errors.append(e)
        ps = [MProcess(target=work) for i in range(min(self.n, len(tasks)))]
        for p in ps:
            p.start()
        for p in ps:
            p.join()
        if errors:
            raise errors[0]
        return done

    def imap(self, f, it, chunksize=1):
        if not self.fs.preempt:
            for x in it:
                yield f(x)
        else:
            for r in sorted(self.results(f, list(it)), key=first):
                yield r[1]

    def imap_unordered(self, f, it, chunksize=1):
        return self.in_any_order([r[1] for r in self.results(f, list(it))])

    def in_any_order(self, rs):
        if self.fs.pool_order:
            while rs:
                yield rs.pop(A.choice('pool', len(rs)))
        else:
            for r in rs:
                yield r

    def map(self, f, it, chunksize=None):
        return list(self.imap(f, it))

    def starmap(self, f, it, chunksize=None):
        return [f(*x) for x in it]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return Future(callback, error_callback, f, args, kwds)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return Future(callback, error_callback, self.map, (f, it), {})

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return Future(callback, error_callback, self.starmap, (f, it), {})

    def close(self):
        pass

    join = terminate = close


class Future(object):
    """AsyncResult and concurrent.futures.Future"""
    def __init__(self, callback, error_callback, f, args, kwds):
        self.e = None
        self.r = None
        try:
            self.r = f(*args, **kwds)
        except Exception as e:
            self.e = e
        if self.e is None and callback is not None:
            callback(self.r)
        if self.e is not None and error_callback is not None:
            error_callback(self.e)

    def get(self, timeout=None):
        if self.e is not None:
            raise self.e
        return self.r

    result = get

    def exception(self, timeout=None):
        return self.e

    def ready(self):
        return True

    done = ready

    def successful(self):
        return self.e is None

    def wait(self, timeout=None):
        pass

    def add_done_callback(self, f):
        f(self)

    def cancel(self):
        return False


class FExecutor(object):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), thread_name_prefix=''):
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        if initializer:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def submit(self, f, *args, **kwds):
        return Future(None, None, f, args, kwds)

    def map(self, f, *its, timeout=None, chunksize=1):
        return iter([f(*xs) for xs in zip(*its)])

    def shutdown(self, wait=True, cancel_futures=False):
        pass


def f_as_completed(fs, timeout=None):
    return FPool().in_any_order(list(fs))


# -------------------------------------------------------------------------------------------------- installation
def p_load(f, *a, **k):
    if hasattr(f, 'get_object'):
        return f.get_object()
    return _dill.load(f)


def p_dump(obj, f, *a, **k):
    if hasattr(f, 'put_object'):
        f.put_object(obj)
    elif hasattr(f, 'write'):
        f.write(p_dumps(obj))
    else:
        raise TypeError("file must have a 'write' attribute")


def p_dumps(obj, *a, **k):
    return Blob([('o', copy.deepcopy(obj))])


def p_loads(data, *a, **k):
    if isinstance(data, Blob):
        return object_of(data.chunks, 0)
    if isinstance(data, str):
        raise TypeError("a bytes-like object is required, not 'str'")
    if len(data) == 0:
        raise EOFError('Ran out of input')
    raise _pickle.UnpicklingError('invalid load key')


class FPickler(object):
    def __init__(self, f, *a, **k):
        self.f = f

    def dump(self, obj):
        p_dump(obj, self.f)


class FUnpickler(object):
    def __init__(self, f, *a, **k):
        self.f = f

    def load(self):
        return p_load(self.f)


def f_time():
    # clocks may be too coarse to tell two moments apart
    if not CUR.coarse:
        CUR.ids += 1
    return 1000.5 + CUR.ids


def f_time_ns():
    return int(f_time() * 10 ** 9)


def f_localtime(ts=None):
    if ts is None:
        ts = CUR.now
    return _time.gmtime(ts) if A.known(ts) else FTime(ts)


def f_strftime(fmt, t=None):
    if t is None:
        t = f_localtime()
    return FDateTime(t.ts).strftime(fmt) if isinstance(t, FTime) else _time.strftime(fmt, t)


class FTime(object):
    """time.struct_time for symbolic seconds"""
    def __init__(self, ts):
        self.ts = ts

    def __getattr__(self, n):
        if n == 'tm_hour':
            return self.ts % 86400 // 3600
        if n == 'tm_min':
            return self.ts // 60 % 60
        if n == 'tm_sec':
            return self.ts % 60
        if n[:3] == 'tm_':
            return getattr(FDateTime(self.ts)._day().timetuple(), n)
        raise AttributeError(n)

    def __getitem__(self, i):
        return getattr(self, ['tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday', 'tm_isdst'][i])


class FUuid(object):
    def __init__(self, n):
        self.int = n
        self.hex = '%032x' % n
        self.bytes = bytes(bytearray([(n >> (8 * i)) & 255 for i in range(15, -1, -1)]))

    def __str__(self):
        h = self.hex
        return '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])

    def __repr__(self):
        return "UUID('%s')" % self

    def __format__(self, spec):
        return format(str(self), spec)

    def __eq__(self, o):
        return isinstance(o, FUuid) and o.int == self.int

    def __hash__(self):
        return hash(self.int)


def f_uuid():
    CUR.uuids += 1
    return FUuid(0x9e3779b97f4a7c15f39cc0605cedc834 ^ (CUR.uuids * 0x1000003))


def f_randint(a, b):
    CUR.ids += 1
    return 7000 + CUR.ids


def f_randrange(a, b=None, step=1):
    return f_randint(0, 0)


def f_getrandbits(k):
    return f_randint(0, 0)


def f_random():
    CUR.ids += 1
    return (CUR.ids * 0.6180339887498949) % 1.0


def f_choice(xs):
    CUR.ids += 1
    return xs[CUR.ids % len(xs)]


def f_fsync(fd):
    if isinstance(fd, File):
        fd.flush()


def f_getpid():
    s = CUR.sched
    return CUR.pid + (1 + s.procs.index(s.cur) if s is not None and s.inside() else 0)


def f_getcwd():
    return CUR.cwd


def f_getcwdb():
    return CUR.cwd.encode()


def f_cpu():
    return CUR.ncpu


def f_system():
    return CUR.system


class FUname(object):
    node = release = version = machine = processor = ''

    def __init__(self):
        self.system = CUR.system

    def __getitem__(self, i):
        return self.system if i == 0 else ''

    @property
    def sysname(self):
        return self.system


class FDateTime(object):
    """datetime.datetime for symbolic seconds (UTC, whole seconds)"""
    def __init__(self, ts):
        self.ts = ts

    @staticmethod
    def fromtimestamp(ts, tz=None):
        if A.known(ts):
            return _datetime.datetime.fromtimestamp(ts, tz)
        return FDateTime(ts)

    @staticmethod
    def utcfromtimestamp(ts):
        if A.known(ts):
            return _datetime.datetime.utcfromtimestamp(ts)
        return FDateTime(ts)

    @staticmethod
    def now(tz=None):
        return FDateTime.fromtimestamp(CUR.now, tz)

    @staticmethod
    def today():
        return FDateTime.now()

    @staticmethod
    def utcnow():
        return FDateTime.now()

    @staticmethod
    def strptime(s, fmt):
        return _datetime.datetime.strptime(s, fmt)

    def timestamp(self):
        return self.ts

    @property
    def hour(self):
        return self.ts % 86400 // 3600

    @property
    def minute(self):
        return self.ts // 60 % 60

    @property
    def second(self):
        return self.ts % 60

    microsecond = 0

    @property
    def year(self):
        return self._day().year

    @property
    def month(self):
        return self._day().month

    @property
    def day(self):
        return self._day().day

    def _day(self):
        d = self.ts // 86400
        for k in range(CUR.day - 3, CUR.day + 4):
            if A.decide(d == k):
                return _datetime.datetime.fromtimestamp(k * 86400)
        return _datetime.datetime.fromtimestamp(A.concrete(d) * 86400)

    def strftime(self, fmt):
        out = ''
        i = 0
        s = self.ts % 86400
        while i < len(fmt):
            c = fmt[i]
            i += 1
            if c != '%':
                out += c
                continue
            c = fmt[i]
            i += 1
            if c == 'H':
                out += two(s // 3600)
            elif c == 'M':
                out += two(s // 60 % 60)
            elif c == 'S':
                out += two(s % 60)
            elif c == 'T':
                out += self.strftime('%H:%M:%S')
            elif c == 'I':
                out += two((s // 3600 + 11) % 12 + 1)
            elif c == 'p':
                out += 'AM' if A.decide(s < 43200) else 'PM'
            elif c == 'k':
                h = s // 3600
                out += ' ' + str(h) if A.decide(h < 10) else str(h)
            elif c == 'R':
                out += self.strftime('%H:%M')
            elif c == 'X':
                out += self.strftime('%H:%M:%S')
            elif c == 'r':
                out += self.strftime('%I:%M:%S %p')
            elif c == 'c':
                out += self.strftime('%a %b ') + '%2d' % int(self._day().strftime('%d')) + self.strftime(' %H:%M:%S %Y')
            elif c == 's':
                A.unsupported('strftime %s')
            elif c == 'f':
                out += '000000'
            elif c in 'yYmdejaAbBhuwUWVgGCFDx%':
                out += self._day().strftime('%' + c)
            else:
                A.unsupported('strftime %' + c)
        return out

    def isoformat(self, sep='T', timespec='auto'):
        return self.strftime('%Y-%m-%d' + sep + '%H:%M:%S')

    def __str__(self):
        return self.isoformat(' ')

    def __format__(self, f):
        return self.strftime(f) if f else str(self)

    def __eq__(self, o):
        return isinstance(o, FDateTime) and self.ts == o.ts

    def __lt__(self, o):
        return self.ts < o.ts

    def __le__(self, o):
        return self.ts <= o.ts

    def __gt__(self, o):
        return self.ts > o.ts

    def __ge__(self, o):
        return self.ts >= o.ts

    def __hash__(self):
        return hash(self.ts)


def two(x):
    return chr(48 + x // 10) + chr(48 + x % 10)


def fresh(now=1000, ncpu=2, system='Linux', free=False, max_switches=10 ** 6):
    """a new file system, installed in every loaded codeprep module"""
    global CUR
    CUR = None
    fs = FS(now)
    CUR = fs
    del OPAQUE[:]
    fs.day = 1600000000 // 86400
    fs.ncpu = ncpu
    fs.system = system
    fs.sched = Sched(fs, free, max_switches)
    install(fs)
    return fs


def by_name(name):
    def f(*a, **k):
        return getattr(CUR, name)(*a, **k)
    f.__name__ = name
    return f


f_open = by_name('open')
FS_OS = dict(listdir='listdir', walk='walk', makedirs='makedirs', mkdir='mkdir', remove='remove', unlink='remove', rename='rename',
             replace='rename', rmdir='rmdir', stat='stat', lstat='lstat', fstat='stat', scandir='scandir', access='access', utime='utime',
             chmod='chmod', symlink='symlink', link='hardlink', readlink='readlink', removedirs='removedirs', renames='renames',
             open='os_open', fdopen='fdopen', close='os_close', write='os_write')
FS_PATH = dict(exists='exists', lexists='lexists', isfile='isfile', isdir='isdir', islink='islink', getmtime='getmtime',
               getatime='getmtime', getctime='getmtime', getsize='getsize', abspath='abspath', relpath='relpath',
               realpath='realpath', samefile='samefile')
FS_SHUTIL = dict(rmtree='rmtree', move='move', copy='copy', copy2='copy2', copyfile='copyfile', copytree='copytree')


def stands(names, **more):
    out = {k: by_name(v) for k, v in names.items()}
    out.update(more)
    return out


def f_copyfileobj(fsrc, fdst, length=0):
    fdst.write(fsrc.read())


def f_fspath(p):
    return p if isinstance(p, (str, bytes)) or not hasattr(p, '__fspath__') else p.__fspath__()


def f_context(method=None):
    return FMP[0]


def f_cur():
    return _mp.current_process()


FMP = []
STANDINS = []          # (real object, stand-in)


def module(real, safe, repl):
    """stand-in for a module and for everything in it that is imported by name"""
    ns = NS(real, safe, **repl)
    STANDINS.append((real, ns))
    for k, v in repl.items():
        r = getattr(real, k, None)
        if r is not None and callable(r):
            STANDINS.append((r, v))
    if safe is not ALL:
        for k in dir(real):
            r = getattr(real, k, None)
            if k[:1] != '_' and k not in repl and k not in safe and not harmless(r) and getattr(r, '__module__', None) is not None \
                    and not isinstance(r, type) and mine(r, real):
                STANDINS.append((r, Missing(real.__name__ + '.' + k)))
    return ns


def mine(r, real):
    m = r.__module__
    return m == real.__name__ or m in ('posix', 'nt', 'posixpath', '_' + real.__name__) or m.startswith(real.__name__ + '.')


def build():
    fpath = module(_os.path, 'join split splitext basename dirname normpath normcase isabs commonprefix commonpath expanduser expandvars '
                             'splitdrive'.split(), stands(FS_PATH))
    fos = module(_os, 'fsencode fsdecode getenv getenvb strerror PathLike environ environb get_exec_path sched_getaffinity'.split(),
                 stands(FS_OS, path=fpath, getpid=f_getpid, getppid=f_getpid, getcwd=f_getcwd, getcwdb=f_getcwdb, cpu_count=f_cpu,
                        fsync=f_fsync, fspath=f_fspath, uname=FUname, sync=_nothing))
    module(_shutil, ['get_terminal_size', 'which'], stands(FS_SHUTIL, copyfileobj=f_copyfileobj, copystat=_nothing, copymode=_nothing))
    pk = dict(load=p_load, dump=p_dump, loads=p_loads, dumps=p_dumps, Pickler=FPickler, Unpickler=FUnpickler)
    module(_pickle, ALL, pk)
    module(_dill, ALL, pk)
    module(_gzip, [], dict(GzipFile=GzFile, open=f_gzip_open, compress=f_compress, decompress=f_decompress))
    fpool = module(_mppool, [], dict(Pool=FPool, ThreadPool=FPool))
    FMP.append(module(_mp, [], dict(Queue=MQueue, SimpleQueue=MQueue, JoinableQueue=MQueue, Lock=MLock, RLock=MLock, Process=MProcess,
                                    Value=MValue, Pool=FPool, cpu_count=f_cpu, pool=fpool, get_context=f_context,
                                    current_process=f_cur, set_start_method=_nothing, freeze_support=_nothing)))
    ffut = module(_futures, [], dict(ProcessPoolExecutor=FExecutor, ThreadPoolExecutor=FExecutor, as_completed=f_as_completed))
    module(_time, 'mktime asctime ctime strptime struct_time'.split(),
           dict(time=f_time, monotonic=f_time, perf_counter=f_time, process_time=f_time, time_ns=f_time_ns, monotonic_ns=f_time_ns,
                perf_counter_ns=f_time_ns, sleep=_nothing, localtime=f_localtime, gmtime=f_localtime, strftime=f_strftime))
    module(_random, ['Random'], dict(randint=f_randint, randrange=f_randrange, getrandbits=f_getrandbits, random=f_random, choice=f_choice,
                                     seed=_nothing))
    module(_uuid, ['UUID', 'uuid3', 'uuid5'], dict(uuid4=f_uuid, uuid1=f_uuid))
    module(_datetime, ALL, dict(datetime=FDateTime))
    module(_platform, ALL, dict(system=f_system, uname=FUname))
    module(_tempfile, [], dict(mkdtemp=by_name('mkdtemp'), mkstemp=by_name('mkstemp'), TemporaryDirectory=TempDir, NamedTemporaryFile=TempFile,
                               gettempdir=f_tempdir))
    module(_pathlib, [], dict(Path=FPath, PosixPath=FPath, PurePath=FPath, PurePosixPath=FPath))
    module(_glob, ['escape', 'has_magic'], dict(glob=by_name('glob'), iglob=by_name('iglob')))
    module(io, 'StringIO TextIOBase IOBase RawIOBase BufferedIOBase'.split(), dict(open=f_open, BytesIO=FBytesIO))
    module(_codecs, [n for n in dir(_codecs) if n != 'open'], dict(open=f_codecs_open))
    module(_builtins, ALL, dict(open=f_open))
    for m in (_fileinput, _linecache, _bz2, _lzma, _zipfile, _tarfile, _zlib, _subprocess, _threading):
        module(m, [], {})


def f_tempdir():
    return '/tmp'


def f_codecs_open(filename, mode='r', encoding=None, errors='strict', buffering=-1):
    # no translation of line ends
    return CUR.open(filename, mode, buffering, encoding, errors, '')


def install(fs):
    if not STANDINS:
        build()
    patching.standins('codeprep', STANDINS, {'open': f_open}, (_mp.Process,),
                   {'start': p_start, 'join': p_join, 'is_alive': p_alive, 'exitcode': property(p_exit)})


def _nothing(*a, **k):
    pass
