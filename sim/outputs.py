"""Simulated outputs: what happens to each write is decided by the chooser."""
import errno
import io


class Flaw(Exception):
    """An injected error which no library knows."""


class Cut(BaseException):
    """An injected error which is not an Exception (as KeyboardInterrupt is)."""


def gen_error(ch):
    return ch.pick([OSError(errno.ENOSPC, 'No space left on device'), OSError(errno.EIO, 'Input/output error'),
                    BrokenPipeError(errno.EPIPE, 'Broken pipe'), MemoryError('injected'), Flaw('injected'), Cut('injected'),
                    ValueError('I/O operation on closed file'), TypeError('injected'), KeyboardInterrupt()])


class SimOutput(object):
    """Accepts bytes.

    returns: 'count' (the number of bytes accepted) or 'none' (as old file-like objects do; everything is accepted then).
    short: 0 never, 1 one byte at a time, 2 seeded.  fail_call / fail_byte: where the error is raised; with fail_byte the
    bytes before it are accepted first, and ``torn`` tells whether they are in the same call as the error.
    """

    def __init__(self, ch, ctx, returns='count', short=0, fail_call=None, fail_byte=None, torn=False, error=None,
                 permanent=True, zero=False):
        self.ch, self.ctx = ch, ctx
        self.returns, self.short = returns, short
        self.fail_call, self.fail_byte, self.torn, self.error = fail_call, fail_byte, torn, error
        self.permanent = permanent
        self.zero = zero            # a full disk which accepts nothing instead of raising
        self.data = bytearray()
        self.calls = 0
        self.raised = 0
        self.on_write = None

    def writable(self):
        return True

    def _fail(self, kind):
        self.ctx.fault(kind)
        self.raised += 1
        if not self.permanent:
            self.fail_call = self.fail_byte = None
        raise self.error

    def write(self, b):
        self.calls += 1
        self.ctx.step()
        b = bytes(b)
        if self.fail_call is not None and self.calls >= self.fail_call:
            self._fail('output-error')
        n = len(b)
        if self.returns == 'count' and n > 1 and self.short:
            k = 1 if self.short == 1 else 1 + self.ch.draw(n)
            if k < n:
                self.ctx.fault('short-write')
                n = k
        if self.fail_byte is not None and len(self.data) + n > self.fail_byte:
            room = self.fail_byte - len(self.data)
            if room <= 0 or self.torn or self.returns == 'none':
                self.data += b[:max(room, 0)]
                if room > 0:
                    self.ctx.fault('torn-write')
                if self.zero and room <= 0:
                    self.ctx.fault('full-output')
                    self.raised += 1
                    return 0
                self._fail('output-error')
            self.ctx.fault('short-write')
            n = room
        self.data += b[:n]
        if self.on_write is not None:
            self.on_write()
        return n if self.returns == 'count' else None


class SimRaw(io.RawIOBase):
    """The same as a raw stream below a real io.BufferedWriter."""

    def __init__(self, out):
        super(SimRaw, self).__init__()
        self.out = out

    def writable(self):
        return True

    def write(self, b):
        return self.out.write(b)
