"""A simulated disk: page cache, durable content, and the faults between them."""
from __future__ import annotations

import io


class DiskError(OSError):
    pass


class SimFile(io.RawIOBase):
    """What a program writes a checkpoint through."""

    def __init__(self, disk, name, fault, frac_len):
        super().__init__()
        self.disk, self.name, self.fault, self.limit = disk, name, fault, frac_len
        self.buf = bytearray()
        self.pos = 0

    def writable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.buf) + off
        return self.pos

    def write(self, b):
        b = bytes(b)
        n = len(b)
        if self.fault in ("enospc", "eio", "crash") and self.pos + n > self.limit:
            room = max(0, self.limit - self.pos)
            self._put(b[:room])
            self.disk.cache[self.name] = bytes(self.buf)
            self.disk.ctx.faults["disk:" + self.fault] += 1
            if self.fault == "crash":
                raise CrashNow()
            e = DiskError(28, "No space left on device") if self.fault == "enospc" else DiskError(5, "Input/output error")
            e._gsim = True
            raise e
        self._put(b)
        return n

    def _put(self, b):
        end = self.pos + len(b)
        if end > len(self.buf):
            self.buf.extend(b"\0" * (end - len(self.buf)))
        self.buf[self.pos:end] = b
        self.pos = end

    def flush(self):
        pass

    def done(self):
        self.disk.cache[self.name] = bytes(self.buf)


class CrashNow(BaseException):
    """The process dies here."""

    _gsim = True


class SimDisk:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cache: dict[str, bytes] = {}
        self.durable: dict[str, bytes] = {}
        self.sizes: dict[str, int] = {}         # of acknowledged files

    def create(self, name, fault=None, limit=0):
        return SimFile(self, name, fault, limit)

    def fsync(self, name, lie=False):
        if lie:
            self.ctx.faults["disk:lost_write"] += 1
            return
        self.durable[name] = self.cache[name]

    def rename(self, a, b):
        for d in (self.cache, self.durable):
            if a in d:
                d[b] = d.pop(a)

    def crash(self, torn):
        """Everything not durable is lost, but for a prefix of each torn file."""
        new = dict(self.durable)
        for n, c in self.cache.items():
            if n not in new and torn > 0 and len(c):
                new[n] = c[:max(1, int(len(c) * torn))]
                self.ctx.faults["disk:torn_file"] += 1
        self.durable = new
        self.cache = dict(new)

    def read(self, name):
        return io.BytesIO(self.cache[name])
