"""
Simulated storage: real files and streams with a faulty raw layer underneath.

A Plan decides from its JSON spec when the layer fails; everything above it (buffering, the code under test) is real.

  {'kind': 'enospc', 'at': N}        no byte at or beyond offset N can be written
  {'kind': 'eio-write', 'call': k, 'times': n}     write calls k .. k+n-1 fail
  {'kind': 'short-write', 'seed': s} every write takes only a part of the data
  {'kind': 'blocked', 'at': N, 'value': v}         a raw write at or beyond offset N takes nothing and returns v (None or 0)
  {'kind': 'close', 'lost': n}       the last n bytes are lost and close() reports it
  {'kind': 'open', 'times': n}       opening fails
  {'kind': 'eio-read', 'at': N, 'times': n, 'len': L}        reading beyond offset N fails n times (with len: reading any
                                     of the L bytes from N)
  {'kind': 'eio-call', 'call': k, 'times': n}      read calls k .. k+n-1 fail
With 'interrupt' an I/O error is a KeyboardInterrupt instead.
  {'kind': 'short-read', 'seed': s}  a raw read returns fewer bytes than asked for
"""
import builtins
import errno
import io
import os
import random

_real_open = io.open


class Plan:
    def __init__(self, ctx, spec):
        self.ctx = ctx
        self.spec = spec or {}
        self.kind = self.spec.get('kind')
        self.active = True
        self.fired = 0
        self.calls = 0
        self.left = self.spec.get('times', 1 << 60)
        self.rng = random.Random(self.spec.get('seed', 0))

    def heal(self):
        self.active = False

    def fire(self, what):
        self.fired += 1
        self.ctx.fault(what)

    def error(self, what):
        if self.spec.get('interrupt'):
            self.fire('interrupt')
            raise KeyboardInterrupt
        self.fire(what)
        raise OSError(errno.EIO, 'Input/output error')

    def open(self, writing):
        if self.active and self.kind == 'open' and self.left > 0:
            self.left -= 1
            self.fire('open fails')
            code = getattr(errno, self.spec.get('errno', 'EMFILE'))
            raise OSError(code, os.strerror(code))

    def write(self, pos, b, real):
        """Writes what the fault lets through; returns the number of bytes or raises."""
        b = memoryview(b).cast('B')
        n = len(b)
        k = self.kind
        if not self.active or n == 0 or k is None:
            return real(b)
        if k == 'enospc':
            room = self.spec['at'] - pos
            if room <= 0:
                self.fire('disk full')
                raise OSError(errno.ENOSPC, 'No space left on device')
            if n > room:
                self.fire('disk nearly full: short write')
                return real(b[:room])
        elif k == 'eio-write':
            self.calls += 1
            if self.calls > self.spec['call'] and self.left > 0:
                self.left -= 1
                self.error('write I/O error')
        elif k == 'blocked':
            room = self.spec['at'] - pos
            if room <= 0:
                self.fire('write blocked')
                return self.spec['value']
            if n > room:
                self.fire('write blocked')
                return real(b[:room])
        elif k == 'short-write' and n > 1:
            m = self.rng.randrange(1, n + 1)
            if m < n:
                self.fire('short write')
            return real(b[:m])
        return real(b)

    def room(self, pos, n):
        """How many of n bytes at pos can be read; raises for an error."""
        k = self.kind
        if not self.active or k is None or n == 0:
            return n
        if k == 'eio-read':
            if pos + n > self.spec['at'] and pos < self.spec['at'] + self.spec.get('len', 1 << 60) and self.left > 0:
                if pos >= self.spec['at'] or self.spec.get('whole'):
                    self.left -= 1
                    self.error('read I/O error')
                return self.spec['at'] - pos
        elif k == 'eio-call':
            self.calls += 1
            if self.calls > self.spec['call'] and self.left > 0:
                self.left -= 1
                self.error('read I/O error')
        elif k == 'short-read' and n > 1:
            m = self.rng.randrange(1, n + 1)
            if m < n:
                self.fire('short read')
            return m
        return n


class FRaw(io.FileIO):
    """A raw file whose storage follows a plan."""

    def __init__(self, file, mode, plan, **kw):
        super().__init__(file, mode, **kw)
        self.plan = plan

    def write(self, b):
        return self.plan.write(super().tell() if self.seekable() else 0, b, super().write)

    def readinto(self, b):
        mv = memoryview(b).cast('B')
        n = self.plan.room(super().tell(), len(mv))
        return super().readinto(mv[:n])

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        n = self.plan.room(super().tell(), n)
        return super().read(n)

    def readall(self):
        out = []
        while True:
            b = self.read(65536)
            if not b:
                return b''.join(out)
            out.append(b)

    def close(self):
        if self.closed:
            return
        p = self.plan
        if p.active and p.kind == 'close' and self.writable() and p.left > 0:
            p.left -= 1
            p.fire('close reports lost data')
            lost = p.spec.get('lost', 0)
            if lost:
                size = os.fstat(self.fileno()).st_size
                os.ftruncate(self.fileno(), max(0, size - lost))
            super().close()
            raise OSError(errno.EIO, 'Input/output error')
        super().close()


class FBytes(io.BytesIO):
    """An in-memory stream whose storage follows a plan."""

    def __init__(self, b, plan):
        super().__init__(b)
        self.plan = plan

    def write(self, b):
        n = 0
        mv = memoryview(b).cast('B')
        while True:
            n += self.plan.write(super().tell(), mv[n:], super().write)
            if n >= len(mv):
                return n

    def _check(self, n):
        have = len(self.getbuffer()) - super().tell()
        want = have if n is None or n < 0 else min(n, have)
        if want > 0:
            pos, left = super().tell(), want
            while left > 0:
                m = self.plan.room(pos, left)
                pos += m
                left -= m

    def read(self, n=-1):
        self._check(n)
        return super().read(n)

    def read1(self, n=-1):
        self._check(n)
        return super().read1(n)

    def readinto(self, b):
        self._check(len(b))
        return super().readinto(b)

    def readline(self, n=-1):
        self._check(1)
        return super().readline(n)

    def __next__(self):
        self._check(1)
        return super().__next__()


class Disk:
    """Replaces open(): files below the given directory get the plan of the current action."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.plan = None
        self.rules = {}

    def plan_for(self, file, mode):
        if isinstance(file, int):
            try:
                file = os.readlink(f'/proc/self/fd/{file}')
            except OSError:
                return None
        try:
            p = os.path.realpath(os.fspath(file))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith(self.root + os.sep):
            return None
        return self.rules.get(p) or self.plan

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        plan = self.plan_for(file, mode) if isinstance(mode, str) else None
        if plan is None or plan.kind is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in 'wax+')
        plan.open(writing)
        raw = FRaw(file, mode.replace('b', '').replace('t', ''), plan, closefd=closefd, opener=opener)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline)
        t.mode = mode
        return t

    def __enter__(self):
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = _real_open
        return False


class faults:
    """with faults(disk, plan): the plan is in force for all files of the disk."""

    def __init__(self, disk, plan):
        self.disk, self.plan = disk, plan

    def __enter__(self):
        self.disk.plan = self.plan
        return self.plan

    def __exit__(self, *a):
        self.disk.plan = None
        self.plan.heal()
        return False


class file_size_limit:
    """The real file size limit of the process (EFBIG), as a quota or a small file system has it."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import resource
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        import resource
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        return False
