"""Farfalle deck functions (Kravatte Achouffe, Xoofff) and their modes, as defined by their designers.

Bit strings are (Str, bits): the bits of each byte are numbered from the least significant one and unused bits are zero.
"""
import keccak
import terms as tm
from strs import Str, V, lanes, EMPTY
from modes import add_lanes, maskbits, B, Z


def bits_of(s, n):
    """The first n bits of s as a bit string."""
    return maskbits(s, n), n


def cat(a, b):
    """Concatenation of bit strings."""
    (s, n), (t, k) = a, b
    o = n % 8
    if not o:
        return s + t, n + k
    total = (n + k + 7) // 8
    res = s[:n // 8]
    prev = s.get(n // 8, 1)
    for i in range(len(t)):
        v = t.get(i, 1)
        res = res + V([(tm.xor(prev, tm.shl(v, o, 8), 8), 1)])
        prev = tm.lshr(v, 8 - o, 8)
    if len(res) < total:
        res = res + V([(prev, 1)])
    return res[:total], n + k


def const(val, n):
    return B(*[(val >> 8 * i) & 255 for i in range((n + 7) // 8)]), n


class Deck:
    """A deck function holding its key, the accumulated history and the current output."""

    def __init__(self, ctx, kind):
        self.ctx = ctx
        if kind == 'kravatte':
            self.b, self.ls, self.rc, self.re = 1600, 8, keccak.rollc, keccak.rolle
            self.p = lambda A: ctx.keccak(A, 6)
        else:
            self.b, self.ls, self.rc, self.re = 384, 4, keccak.xrollc, keccak.xrolle
            self.p = lambda A: ctx.xoodoo(A, 6)
        self.n = self.b // 8
        self.l = self.n // self.ls

    def L(self, A):
        return lanes(A, self.ls)

    def load(self, s, A=None):
        return add_lanes(A or [0] * self.l, s, 0, self.ls)

    def key(self, K, bits):
        s, _ = cat(bits_of(K, bits), const(1, 1))
        self.k = self.p(self.load(s))
        self.phase = 'compress'
        self.part = None
        self.reset()

    def reset(self):
        self.roll = self.k
        self.x = [0] * self.l
        self.part = EMPTY

    def clone(self):
        d = Deck.__new__(Deck)
        d.__dict__.update(self.__dict__)
        return d

    def absorb(self, blk):
        y = self.p(self.load(blk, self.roll))
        self.x = [tm.xor(a, c, 8 * self.ls) for a, c in zip(self.x, y)]
        self.roll = self.rc(self.roll)

    def compress(self, s, bits, last, init):
        if not last and bits % 8:
            return 1
        if init:
            self.reset()
        if self.phase != 'compress':
            self.phase = 'compress'
            self.part = EMPTY
        self.part = self.part + maskbits(s, bits)
        n = self.n
        while len(self.part) >= n and (not last or (len(self.part) * 8 - (-bits % 8)) >= self.b):
            self.absorb(self.part[:n])
            self.part = self.part[n:]
        if last:
            q = len(self.part) * 8 - (-bits % 8)
            s, _ = cat((self.part, q), const(1, 1))
            self.absorb(s)
            self.roll = self.rc(self.roll)
            self.part = EMPTY
        return 0

    def expand(self, bits, last, short):
        """Returns an error or the next output bits."""
        if not last and bits % 8:
            return None
        if self.phase == 'compress':
            if len(self.part):
                return None
            self.y = self.x if short else self.p(self.x)
            self.phase = 'expand'
            self.z = EMPTY
        elif self.phase != 'expand':
            return None
        nb = (bits + 7) // 8
        while len(self.z) < nb:
            o = self.p(self.y)
            self.z = self.z + self.L([tm.xor(a, c, 8 * self.ls) for a, c in zip(o, self.roll)])
            self.y = self.re(self.y)
        o = maskbits(self.z, bits)
        self.z = self.z[nb:]
        if last:
            self.phase = 'expanded'
        return o

    # whole strings
    def string(self, a, init=False):
        """Adds a bit string to the history."""
        self.compress(a[0], a[1], True, init)

    def F(self, n, short=False):
        """The first n output bits for the history."""
        d = self.clone()
        return d.expand(n, True, short)


def xor_bits(a, b):
    return a.xor(b)


class Sane:
    """Deck-SANE."""
    T = 16

    def __init__(self, ctx, kind, K, kb, N, nb):
        self.d = Deck(ctx, kind)
        self.d.key(K, kb)
        self.e = 0
        self.d.string(bits_of(N, nb))
        self.tag = self.d.F(8 * self.T)

    def history(self, data, bit):
        self.d.string(cat(data, const(bit | self.e << 1, 2)))

    def stream(self, x):
        z = self.d.F(8 * self.T + x[1])[self.T:]
        return x[0].xor(z), x[1]

    def finish(self, C, A):
        if A[1] or not C[1]:
            self.history(A, 0)
        if C[1]:
            self.history(C, 1)
        self.e ^= 1
        return self.d.F(8 * self.T)

    def wrap(self, P, A):
        C = self.stream(P) if P[1] else P
        return C, self.finish(C, A)

    def unwrap(self, C, A):
        """Returns the candidate plaintext and the expected tag."""
        P = self.stream(C) if C[1] else C
        return P, self.finish(C, A)


class Sanse:
    """Deck-SANSE."""
    T = 32

    def __init__(self, ctx, kind, K, kb):
        self.d = Deck(ctx, kind)
        self.d.key(K, kb)
        self.e = 0

    def history(self, data, val, n):
        self.d.string(cat(data, const(val | self.e << n, n + 1)))

    def meta(self, n, A):
        if A[1] or not n:
            self.history(A, 0, 1)

    def wrap(self, P, A):
        self.meta(P[1], A)
        C = P
        if P[1]:
            old = self.d.clone()
            self.history(P, 2, 2)
            T = self.d.F(8 * self.T)
            new, self.d = self.d, old
            self.history((T, 8 * self.T), 3, 2)
            C = P[0].xor(self.d.F(P[1])), P[1]
            self.d = new
        else:
            T = self.d.F(8 * self.T)
        self.e ^= 1
        return C, T

    def unwrap(self, C, A, T):
        self.meta(C[1], A)
        P = C
        if C[1]:
            old = self.d.clone()
            self.history((T, 8 * self.T), 3, 2)
            P = C[0].xor(self.d.F(C[1])), C[1]
            self.d = old
            self.history(P, 2, 2)
        t = self.d.F(8 * self.T)
        self.e ^= 1
        return P, t


def split(n, b, l=8):
    """Length in bits of the left branch of the wide block cipher."""
    if n <= 2 * b - (l + 2):
        return l * ((n + l) // (2 * l))
    q = (n + l + 2 + b - 1) // b
    x = (q - 1).bit_length() - 1
    return (q - 2 ** x) * b - l


class Wbc:
    """Deck-WBC: four Feistel rounds alternating the short and the full deck function."""

    def __init__(self, d):
        self.d = d

    def H(self, s, n):
        d = self.d.clone()
        d.string(s, True)
        return d.F(n, True)

    def G(self, W, s, n):
        d = self.d.clone()
        d.string(W, True)
        d.string(s)
        return d.F(n)

    def parts(self, X):
        nl = split(X[1], self.d.b)
        return (X[0][:nl // 8], nl), (X[0][nl // 8:], X[1] - nl)

    def short(self, X, s):
        """X with its first block xored with H(s)."""
        n = min(self.d.b, X[1])
        k = (n + 7) // 8
        return X[0][:k].xor(self.H(s, n)) + X[0][k:], X[1]

    def encipher(self, P, W):
        L, R = self.parts(P)
        R = self.short(R, cat(L, const(0, 1)))
        L = L[0].xor(self.G(W, cat(R, const(1, 1)), L[1])), L[1]
        R = R[0].xor(self.G(W, cat(L, const(0, 1)), R[1])), R[1]
        L = self.short(L, cat(R, const(1, 1)))
        return L[0] + R[0], P[1]

    def decipher(self, C, W):
        L, R = self.parts(C)
        L = self.short(L, cat(R, const(1, 1)))
        R = R[0].xor(self.G(W, cat(L, const(0, 1)), R[1])), R[1]
        L = L[0].xor(self.G(W, cat(R, const(1, 1)), L[1])), L[1]
        R = self.short(R, cat(L, const(0, 1)))
        return L[0] + R[0], C[1]
