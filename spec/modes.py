"""The sponge-based functions as mathematical definitions over byte strings (FIPS 202, SP 800-185, RFC 9861).

ctx.keccak(A, n) is the permutation; strings are strs.Str; a bit string is (Str, number of bits) whose unused bits are ignored.
"""
import terms as tm
from strs import Str, V, lanes, EMPTY, chunks

Z = lambda n: Str() + bytes(n)
B = lambda *v: Str() + bytes(v)


def add_lanes(A, blk, off=0, ls=8):
    """State lanes with the bytes of blk added at byte off."""
    A = list(A)
    i = 0
    n = len(blk)
    while i < n:
        l, o = divmod(off + i, ls)
        k = min(ls - o, n - i)
        v = blk.get(i, k)
        if k < ls:
            v = tm.cat([(0, 8 * o), (v, 8 * k), (0, 8 * (ls - o - k))]) if type(v) is not int else v << 8 * o
        A[l] = tm.xor(A[l], v, 8 * ls)
        i += k
    return A


class Sponge:
    """Sponge with byte-aligned rate: absorb whole bytes, then a delimited last byte, then squeeze."""

    def __init__(self, ctx, rate, rounds=24):
        self.ctx, self.r, self.n = ctx, rate, rounds
        self.msg = EMPTY
        self.A = None
        self.out = EMPTY
        self.pos = 0

    def absorb(self, s):
        self.msg = self.msg + s

    def finish(self, delim):
        """delim: byte holding the suffix bits followed by a 1 bit (concrete, or symbolic with a branch on the extra block)."""
        m, r = self.msg, self.r
        A = [0] * 25
        i = 0
        while len(m) - i >= r:
            A = self.ctx.keccak(add_lanes(A, m[i:i + r]), self.n)
            i += r
        A = add_lanes(A, m[i:])
        q = len(m) - i
        d = delim if type(delim) is int else V([(delim, 1)])
        A = add_lanes(A, B(d) if type(d) is int else d, q)
        last = B(0x80)
        one = lambda A: self.ctx.keccak(add_lanes(A, last, r - 1), self.n)
        if q == r - 1 and not (type(delim) is int and delim < 0x80):
            two = one(self.ctx.keccak(A, self.n))
            if type(delim) is int:
                self.A = two
            else:
                c = tm.ext(delim, 7, 1)
                self.A = [tm.ite(c, t, o, 64) for t, o in zip(two, one(A))]
        else:
            self.A = one(A)
        self.out = lanes(self.A)[:r]

    def squeeze(self, n):
        while len(self.out) - self.pos < n:
            self.A = self.ctx.keccak(self.A, self.n)
            self.out = self.out + lanes(self.A)[:self.r]
        s = self.out[self.pos:self.pos + n]
        self.pos += n
        return s


def maskbits(s, bits):
    """The first bits of s, unused bits of the last byte zero."""
    n = bits // 8
    if bits % 8 == 0:
        return s[:n]
    return s[:n] + V([(tm.mask(s.get(n, 1), (1 << bits % 8) - 1, 8), 1)])


def append_delim(s, bits, delim):
    """Bit string s followed by the delimited suffix delim: (whole bytes, last delimited byte)."""
    n, k = divmod(bits, 8)
    if k == 0:
        return s[:n], delim
    v = s.get(n, 1)
    v = tm.mask(v, (1 << k) - 1, 8)
    d = delim << k
    b = tm.xor(v, d & 255, 8)
    if d >> 8 == 0:
        return s[:n], b
    return s[:n] + V([(b, 1)]), d >> 8


def sponge(ctx, rate, msg, delim, n, rounds=24):
    s = Sponge(ctx, rate, rounds)
    s.absorb(msg)
    s.finish(delim)
    return s.squeeze(n)


# ---------------------------------------------------------------- SP 800-185

def left_encode(x):
    n = max(1, (x.bit_length() + 7) // 8)
    return B(n) + x.to_bytes(n, 'big')


def right_encode(x):
    n = max(1, (x.bit_length() + 7) // 8)
    return Str() + x.to_bytes(n, 'big') + B(n)


def encode_string(s, bits):
    """Byte string, zero bits after the end of a string that is not a whole number of bytes (it is then always followed by padding)."""
    return left_encode(bits) + maskbits(s, bits)


def bytepad(s, w):
    s = left_encode(w) + s
    return s + Z(-len(s) % w)


def cshake(ctx, sec, N, nbits, S, sbits, msg, mbits):
    """Squeezable sponge of cSHAKE."""
    r = (1600 - 2 * sec) // 8
    s = Sponge(ctx, r)
    if nbits == 0 and sbits == 0:
        pre, d = EMPTY, 0x1F
    else:
        pre, d = bytepad(encode_string(N, nbits) + encode_string(S, sbits), r), 0x04
    m, d = append_delim(msg, mbits, d)
    s.absorb(pre + m)
    s.finish(d)
    return s


def kmac(ctx, sec, K, kbits, S, sbits, msg, L):
    r = (1600 - 2 * sec) // 8
    m = bytepad(encode_string(K, kbits), r) + msg + right_encode(L)
    return cshake(ctx, sec, Str() + b'KMAC', 32, S, sbits, m, 8 * len(m))


def tuplehash(ctx, sec, elems, S, sbits, L):
    m = EMPTY
    for e in elems:
        m = m + encode_string(e, 8 * len(e))
    m = m + right_encode(L)
    return cshake(ctx, sec, Str() + b'TupleHash', 72, S, sbits, m, 8 * len(m))


def parallelhash(ctx, sec, Bl, S, sbits, msg, L):
    r = (1600 - 2 * sec) // 8
    z = left_encode(Bl)
    n = -(-len(msg) // Bl)
    for i in range(n):
        z = z + sponge(ctx, r, msg[i * Bl:(i + 1) * Bl], 0x1F, 2 * sec // 8)
    z = z + right_encode(n) + right_encode(L)
    return cshake(ctx, sec, Str() + b'ParallelHash', 96, S, sbits, z, 8 * len(z))


# ---------------------------------------------------------------- RFC 9861

def length_encode(x):
    n = (x.bit_length() + 7) // 8
    return Str() + x.to_bytes(n, 'big') + B(n)


def kt(ctx, sec, msg, custom):
    r = (1600 - 2 * sec) // 8
    cv = 2 * sec // 8
    s = msg + custom + length_encode(len(custom))
    t = Sponge(ctx, r, 12)
    if len(s) <= 8192:
        t.absorb(s)
        t.finish(0x07)
        return t
    node = s[:8192] + B(3, 0, 0, 0, 0, 0, 0, 0)
    n = 0
    for i in range(8192, len(s), 8192):
        node = node + sponge(ctx, r, s[i:i + 8192], 0x0B, cv, 12)
        n += 1
    node = node + length_encode(n) + B(0xFF, 0xFF)
    t.absorb(node)
    t.finish(0x06)
    return t
