"""
A simulated disk below one scratch directory. Files are real, but every operation which changes the disk passes a seam where
the process may be killed, the power may fail, the disk may be full or broken, or another process may run first.

After a kill, what reached the operating system stays. After a power failure, each file keeps a prefix of the data which was
not synchronised, and a suffix of the name changes since the last synchronisation is undone.
"""
import builtins
import io
import os
import random
import shutil
import tempfile

REAL = {n: getattr(os, n) for n in ('open', 'write', 'fsync', 'fdatasync', 'replace', 'rename', 'mkdir', 'remove', 'unlink', 'getpid', 'close', 'truncate', 'rmdir', 'link')}
REAL_OPEN = io.open


class Crash(BaseException):
    """ the simulated process is gone """


class Process:
    def __init__(self, pid, faults=()):
        self.pid, self.ops, self.dead = pid, 0, False
        self.faults = {f['at']: f for f in faults}
        self.other = {}


class SimRaw(io.FileIO):
    disk, process, path = None, None, None

    def write(self, b):
        if self.process.dead:
            return len(b)
        b = bytes(b)
        cut = self.disk.op('write', data=b)
        data = b if cut is None else b[:cut]
        if data:
            super().write(data)
            self.disk.dirty(self.fileno())
        if cut is not None:
            self.disk.after_cut()
        return len(b)

    def truncate(self, size=None):
        if self.process.dead:
            return 0
        self.disk.op('truncate')
        return super().truncate(size)


class Disk:
    def __init__(self, ctx, seed):
        self.ctx, self.rng = ctx, random.Random(seed)
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='sim-disk-'))
        self.processes, self.journal, self.unsynced, self.pending = [], [], {}, None
        self.spare = 0
        self.cwd = os.getcwd()

    # -- set up
    def __enter__(self):
        os.chdir(self.root)
        builtins.open = io.open = self.open
        for n in ('open', 'write', 'fsync', 'fdatasync', 'replace', 'rename', 'mkdir', 'remove', 'unlink', 'getpid', 'link'):
            setattr(os, n, getattr(self, 'os_' + n))
        return self

    def __exit__(self, *a):
        builtins.open = io.open = REAL_OPEN
        for n, f in REAL.items():
            setattr(os, n, f)
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)
        return False

    @property
    def process(self):
        return self.processes[-1]

    def ours(self, path):
        if not self.processes or isinstance(path, int):
            return False
        return os.path.abspath(os.fspath(path)).startswith(self.root + os.sep)

    # -- the seam
    def op(self, name, data=None):
        """ :return: None, or how many bytes of the data are still written before the failure """
        p = self.process
        if p.dead:
            raise Crash()
        p.ops += 1
        other = p.other.pop(p.ops, None)
        if other is not None:
            other()
        f = p.faults.pop(p.ops, None)
        if f is None:
            return None
        self.ctx.fault('disk-' + f['kind'])
        self.ctx.log('disk', f['kind'], 'at', name, p.ops)
        self.ctx.probe('{}-at-{}'.format(f['kind'], name))
        if data is not None:
            self.pending = f
            return int(len(data) * f['cut'])
        self.fail(f)

    def after_cut(self):
        f, self.pending = self.pending, None
        self.fail(f)

    def fail(self, f):
        if f['kind'] in ('kill', 'power'):
            self.process.dead = True
            if f['kind'] == 'power':
                self.power_failure()
            raise Crash()
        if f['kind'] == 'interrupt':
            from .kernel import FAULTS
            raise FAULTS['interrupt']()
        raise OSError({'enospc': 28, 'eio': 5}[f['kind']], 'injected: ' + f['kind'])

    def power_failure(self):
        for path, (safe, _) in list(self.unsynced.items()):
            full = self.find(path)
            if full is not None:
                size = os.stat(full).st_size
                REAL['truncate'](full, safe + self.rng.choice([0, self.rng.randint(0, max(0, size - safe)), max(0, size - safe)]) if size > safe else size)
        for undo in reversed(self.journal[self.rng.randint(0, len(self.journal)):]):
            undo()
        self.unsynced, self.journal = {}, []
        for p in self.processes:
            p.dead = True

    def find(self, ino):
        for d, _, files in os.walk(self.root):
            for f in files:
                if os.stat(os.path.join(d, f)).st_ino == ino:
                    return os.path.join(d, f)

    def dirty(self, fd):
        st = os.fstat(fd)
        safe = self.unsynced.get(st.st_ino, (0, 0))[0]
        self.unsynced[st.st_ino] = (safe, st.st_size)

    # -- operations
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.ours(file) or opener is not None:
            if isinstance(file, int) and self.processes and any(c in mode for c in 'wax+') and self.fd_path(file):
                return self.wrap(file, mode, buffering, encoding, errors, newline)
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not any(c in mode for c in 'wax+'):
            if self.process.dead:
                raise Crash()
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.op('open')
        self.created(file)
        return self.wrap(file, mode, buffering, encoding, errors, newline)

    def fd_path(self, fd):
        try:
            return os.readlink('/proc/self/fd/{}'.format(fd)).startswith(self.root + os.sep)
        except OSError:
            return False

    def created(self, path):
        path = os.path.abspath(os.fspath(path))
        if not os.path.exists(path):
            self.journal.append(lambda: os.path.exists(path) and REAL['remove'](path))

    def wrap(self, file, mode, buffering, encoding, errors, newline):
        raw = SimRaw(file, mode.replace('b', '').replace('t', ''))
        raw.disk, raw.process = self, self.process
        if 'w' in mode:
            self.unsynced.pop(os.fstat(raw.fileno()).st_ino, None)
        if 'b' in mode and buffering == 0:
            return raw
        f = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw)
        return f if 'b' in mode else io.TextIOWrapper(f, encoding, errors, newline)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if self.ours(path) and flags & (os.O_WRONLY | os.O_RDWR):
            self.op('open')
            self.created(path)
        return REAL['open'](path, flags, mode, dir_fd=dir_fd)

    def os_write(self, fd, data):
        if self.processes and self.fd_path(fd):
            if self.process.dead:
                return len(data)
            cut = self.op('write', data=bytes(data))
            n = REAL['write'](fd, data if cut is None else bytes(data)[:cut])
            self.dirty(fd)
            if cut is not None:
                self.after_cut()
            return n
        return REAL['write'](fd, data)

    def os_fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if self.processes and self.fd_path(fd):
            self.op('fsync')
            st = os.fstat(fd)
            self.unsynced.pop(st.st_ino, None)
            if st.st_size:
                self.unsynced[st.st_ino] = (st.st_size, st.st_size)
            self.journal = []
            return None
        return REAL['fsync'](fd)

    os_fdatasync = os_fsync

    def os_replace(self, src, dst, **kw):
        if not self.ours(dst):
            return REAL['replace'](src, dst, **kw)
        self.op('replace')
        src, dst = os.path.abspath(src), os.path.abspath(dst)
        old = None
        if os.path.exists(dst) and os.path.isfile(dst):
            self.spare += 1
            old = os.path.join(self.root, '.lost-{}'.format(self.spare))
            REAL['link'](dst, old)
        REAL['replace'](src, dst)

        def undo():
            if os.path.exists(dst):
                REAL['replace'](dst, src)
            if old is not None:
                REAL['replace'](old, dst)
        self.journal.append(undo)

    os_rename = os_replace

    def os_link(self, src, dst, **kw):
        if self.ours(dst):
            self.op('link')
            self.created(dst)
        return REAL['link'](src, dst, **kw)

    def os_mkdir(self, path, mode=0o777, **kw):
        if self.ours(path):
            self.op('mkdir')
            full = os.path.abspath(path)
            REAL['mkdir'](path, mode, **kw)
            self.journal.append(lambda: os.path.isdir(full) and not os.listdir(full) and REAL['rmdir'](full))
            return None
        return REAL['mkdir'](path, mode, **kw)

    def os_remove(self, path, **kw):
        if self.ours(path):
            self.op('remove')
        return REAL['remove'](path, **kw)

    os_unlink = os_remove

    def os_getpid(self):
        return self.process.pid if self.processes else REAL['getpid']()

    # -- running a simulated process
    def run(self, process, call):
        """ :return: (result, None) or (None, exception); a dead process leaves nothing behind but the disk """
        self.processes.append(process)
        try:
            return call(), None
        except BaseException as e:
            return None, e
        finally:
            self.processes.pop()
