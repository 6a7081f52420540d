"""Simulated file-like objects. Every decision about short reads, short writes and errors comes from the chooser."""
import io


class SourceError(OSError):
    """An injected error of a source."""


class SimSource(object):
    """A bytes source as load() and blocking_reader use it: read, tell, seek."""

    def __init__(self, ch, ctx, data, mode=0, fail_at=None, error=None, base=0):
        self.ch = ch
        self.ctx = ctx
        self.data = data
        self.pos = base
        self.mode = mode            # 0: full reads; 1: one unit; 2: random; 3: cap
        self.cap = ch.pick([2, 3, 7, 16, 100]) if mode == 3 else None
        self.fail_at = fail_at      # the read call (by count) or None
        self.error = error
        self.reads = 0
        self.log = []
        self.closed = False

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        assert whence == 0
        self.pos = pos
        return pos

    def readable(self):
        return True

    def read(self, n=-1):
        self.reads += 1
        self.ctx.step()
        if self.fail_at is not None and self.reads == self.fail_at:
            self.ctx.fault('source-error')
            self.log.append('error')
            raise self.error
        left = len(self.data) - self.pos
        if n is None or n < 0:
            n = left
        want = min(n, left)
        if want > 1:
            k = want
            if self.mode == 1:
                k = 1
            elif self.mode == 2:
                k = 1 + self.ch.draw(want)
                if k != want and self.ch.draw(2):
                    k = min(want, 1 + self.ch.draw(8))
            elif self.mode == 3:
                k = min(want, self.cap)
            if k < want:
                self.ctx.fault('short-read')
                want = k
        out = self.data[self.pos:self.pos + want]
        self.pos += want
        self.log.append(want)
        return out


class SimTextSource(io.TextIOBase):
    """A text source."""

    def __init__(self, *args, **kw):
        super(SimTextSource, self).__init__()
        self.inner = SimSource(*args, **kw)

    def tell(self):
        return self.inner.tell()

    def seek(self, pos, whence=0):
        return self.inner.seek(pos, whence)

    def readable(self):
        return True

    def read(self, n=-1):
        return self.inner.read(n)

    @property
    def log(self):
        return self.inner.log

    @property
    def reads(self):
        return self.inner.reads
