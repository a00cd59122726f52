"""Simulated disk faults under one directory: every file the code opens there goes through a raw layer that can fail.

A fault is a dict: op ('open', 'read', 'write', 'close'), at (bytes of that file already transferred when it strikes, or for 'open' and
'close' the number of the call), err (errno name, or 'crash'), persist (strike until cleared rather than once).
short limits the bytes one raw read or write transfers, which correct code cannot notice.
"""
import builtins
import errno
import io
import os

from sim.seams import Crash

_open = builtins.open


class Raw(io.FileIO):

    disk = None
    moved = 0
    write_error = False

    def _strike(self, op, n=0):
        d = self.disk
        if d is None or d.dead:
            return n
        for f in d.faults:
            if f['op'] != op or f.get('done'):
                continue
            if op == 'close':
                d.closes += 1
                if d.closes < f['at']:
                    continue
            elif self.moved < f['at']:
                n = min(n, f['at'] - self.moved)
                continue
            d.hit(f)
        if d.short and n:
            n = min(n, d.short)
        return n

    def readinto(self, b):
        if self.disk is None or self.disk.dead:
            return super(Raw, self).readinto(b)
        n = self._strike('read', len(b))
        data = super(Raw, self).read(n) or b''
        b[:len(data)] = data
        self.moved += len(data)
        self.disk.reads += 1
        return len(data)

    def readall(self):
        out = []
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                return b''.join(out)
            out.append(bytes(b[:n]))

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def write(self, b):
        if self.disk is None:
            return super(Raw, self).write(b)
        if self.disk.dead:
            return len(b)
        n = self._strike('write', len(b))
        n = super(Raw, self).write(bytes(b)[:n])
        self.moved += n
        self.disk.writes += 1
        return n

    def close(self):
        if not self.closed and self.disk is not None and not self.disk.dead and self.writable():
            try:
                self._strike('close')
            finally:
                super(Raw, self).close()
        else:
            super(Raw, self).close()


class Disk(object):

    def __init__(self, root, ctx, faults=(), short=0):
        self.root = os.path.abspath(root) + os.sep
        self.ctx = ctx
        self.faults = [dict(f) for f in faults]
        self.short = short
        self.dead = False
        self.opens = self.closes = self.reads = self.writes = 0
        self.struck = 0
        self.crashed = False

    def hit(self, f):
        if not f.get('persist'):
            f['done'] = True
        self.struck += 1
        self.ctx.fault('disk %s %s' % (f['op'], f['err']))
        self.ctx.trace('disk fault %s %s at %s' % (f['op'], f['err'], f['at']))
        if f['err'] == 'crash':
            self.dead = self.crashed = True
            raise Crash()
        e = getattr(errno, f['err'])
        raise OSError(e, os.strerror(e))

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(file, (str, bytes, os.PathLike)) or self.dead or not os.path.abspath(os.fsdecode(file)).startswith(self.root):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        for f in self.faults:
            if f['op'] == 'open' and not f.get('done') and self.opens >= f['at']:
                self.hit(f)
        raw = Raw(file, mode.replace('b', '').replace('t', '').replace('U', ''), opener=opener)
        raw.disk = self
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if raw.readable() and raw.writable():
            buf = io.BufferedRandom(raw, size)
        elif raw.writable():
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    def __enter__(self):
        assert builtins.open is _open
        builtins.open = self.open
        self._io = io.open
        io.open = self.open
        return self

    def __exit__(self, *exc):
        builtins.open = _open
        io.open = self._io
        self.dead = True
        return False
