"""Operations of the duplex harness with their models."""
from modelib import *
from modes import add_lanes, B

BY = lambda bits: (bits + 7) // 8


class Duplex:
    """Duplex construction with queued whole bytes and pad10*1 at a rate in bits."""

    def __init__(self, ctx, rate):
        self.ctx, self.r = ctx, rate
        self.A = [0] * 25
        self.q = 0              # queued input bytes
        self.o = BY(rate)       # output bytes taken since the last duplexing

    def room(self, n):
        return (self.q + n) * 8 <= self.r - 2

    def feed(self, s):
        if not self.room(len(s)):
            return 1
        self.A = add_lanes(self.A, s, self.q)
        self.q += len(s)
        return 0

    def overwrite(self, s):
        if not self.room(len(s)):
            return 1
        old = lanes(self.A)[self.q:self.q + len(s)]
        self.A = add_lanes(self.A, old.xor(s), self.q)
        self.q += len(s)
        return 0

    def zeroes(self, n):
        if self.q or not self.room(n):
            return 1
        return self.overwrite(Str() + bytes(n))

    def skip(self, n):
        if not self.room(n):
            return 1
        self.q += n
        return 0

    def cutout(self, a, b):
        """Output bytes a..b of the rate part, bits beyond the rate zero."""
        s = lanes(self.A)[a:b]
        if b * 8 > self.r and b > a:
            s = s[:-1] + V([(tm.mask(s.get(len(s) - 1, 1), (1 << self.r % 8) - 1, 8), 1)])
        return s

    def duplexing(self, s, zlen, delim):
        if delim == 0 or not self.room(len(s)) or (self.q + len(s)) * 8 + delim.bit_length() - 1 > self.r - 2 or zlen > BY(self.r):
            return [1]
        self.A = add_lanes(add_lanes(self.A, s, self.q), B(delim), self.q + len(s))
        self.A = self.ctx.keccak(add_lanes(self.A, B(1 << (self.r - 1) % 8), (self.r - 1) // 8), 24)
        self.q, self.o = 0, zlen
        return 0, self.cutout(0, zlen)

    def further(self, n, s=None):
        if n > BY(self.r) - self.o:
            return [1]
        z = lanes(self.A)[self.o:self.o + n]
        if s is not None:
            z = z.xor(s)
        self.o += n
        if n and self.o * 8 > self.r:
            z = z[:-1] + V([(tm.mask(z.get(n - 1, 1), (1 << self.r % 8) - 1, 8), 1)])
        return 0, z


class Bytes:
    """Bookkeeping of what the calls will be allowed to do, kept while the script is written."""


def dinit(s, rate, cap):
    ok = rate + cap == 1600 and 3 <= rate <= 1600

    def f(ctx):
        if not ok:
            return 1
        ctx.o[0] = Duplex(ctx, rate)
        return 0
    s.op(1, 0, (rate, cap & 0xFFFFFFFF), (), ('r',), f, f'init({rate},{cap})')
    s.sh = Duplex(NoCtx(), rate) if ok else None


class NoCtx:
    def keccak(self, A, n):
        return A


def _err(s, f):
    """Runs the operation on the shadow object (concrete zero data) to know whether it is refused."""
    r = f(s.sh)
    return (r if type(r) is int else r[0]) != 0


def duplexing(s, n, z, d):
    g = lambda D, x: D.duplexing(x, z, d)
    bad = _err(s, lambda D: g(D, Str() + bytes(n)))
    s.op(2, 0, (n, z, d), (n,), ('r',) if bad else ('r', z), lambda ctx, x: g(ctx.o[0], x), f'duplexing({n},{z},{d:#x})')


def feed(s, n):
    _err(s, lambda D: D.feed(Str() + bytes(n)))
    s.op(3, 0, (n,), (n,), ('r',), lambda ctx, x: ctx.o[0].feed(x), f'feed {n}')


def feed0(s, n):
    _err(s, lambda D: D.skip(n))
    s.op(4, 0, (n,), (), ('r',), lambda ctx: ctx.o[0].skip(n), f'feedzeroes {n}')


def over(s, n):
    _err(s, lambda D: D.overwrite(Str() + bytes(n)))
    s.op(5, 0, (n,), (n,), ('r',), lambda ctx, x: ctx.o[0].overwrite(x), f'overwrite {n}')


def over0(s, n):
    _err(s, lambda D: D.zeroes(n))
    s.op(6, 0, (n,), (), ('r',), lambda ctx: ctx.o[0].zeroes(n), f'overwritezeroes {n}')


def further(s, n):
    bad = _err(s, lambda D: D.further(n))
    s.op(7, 0, (n,), (), ('r',) if bad else ('r', n), lambda ctx: ctx.o[0].further(n), f'further {n}')


def furtheradd(s, n, inplace=False):
    bad = _err(s, lambda D: D.further(n, Str() + bytes(n)))
    s.op(9 if inplace else 8, 0, (n,), (n,), ('r',) if bad else ('r', n), lambda ctx, x: ctx.o[0].further(n, x), f'furtheradd {n}')


# ---- PRG: SpongePRG of "Sponge-based pseudo-random number generators"

class PRG:
    def __init__(self, ctx, cap):
        self.d = Duplex(ctx, 1600 - cap)
        self.rho = (1600 - cap - 2) // 8
        self.cap = cap
        self.bin = EMPTY
        self.bout = EMPTY

    def feed(self, s):
        self.bin = self.bin + s
        while len(self.bin) >= self.rho:
            self.d.duplexing(self.bin[:self.rho], 0, 1)
            self.bin = self.bin[self.rho:]
        self.bout = EMPTY
        return 0

    def fetch(self, n):
        while len(self.bout) < n:
            _, z = self.d.duplexing(self.bin, self.rho, 1)
            self.bin = EMPTY
            self.bout = self.bout + z
        z = self.bout[:n]
        self.bout = self.bout[n:]
        return 0, z

    def forget(self):
        if self.rho * 8 < self.cap:
            return 1
        self.d.duplexing(self.bin, 0, 1)
        self.bin = EMPTY
        self.d.zeroes(self.rho)
        self.d.duplexing(EMPTY, 0, 1)
        self.bout = EMPTY
        return 0


def ginit(s, cap):
    def f(ctx):
        if cap > 1590:
            return 1
        ctx.o[0] = PRG(ctx, cap)
        return 0
    s.op(20, 0, (cap,), (), ('r',), f, f'PRG({cap})')


def gfeed(s, n):
    s.op(21, 0, (n,), (n,), ('r',), lambda ctx, x: ctx.o[0].feed(x), f'feed {n}')


def gfetch(s, n):
    s.op(22, 0, (n,), (), ('r', n), lambda ctx: ctx.o[0].fetch(n), f'fetch {n}')


def gforget(s):
    s.op(23, 0, (), (), ('r',), lambda ctx: ctx.o[0].forget(), 'forget')


def gstate(s):
    s.op(24, 0, (), (), (200,), lambda ctx: lanes(add_lanes(ctx.o[0].d.A, ctx.o[0].bin)), 'state')
