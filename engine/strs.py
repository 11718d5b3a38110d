"""Byte strings of symbolic or concrete bytes, for specifications."""
import terms as tm


class Str:
    """Immutable byte string made of pieces (source, offset, length); a source has get(off, n)."""
    __slots__ = ('p', 'n')

    def __init__(self, pieces=()):
        self.p = [x for x in pieces if x[2]]
        self.n = sum(x[2] for x in self.p)

    def __len__(self):
        return self.n

    def __add__(self, o):
        return Str(self.p + S(o).p)

    def __radd__(self, o):
        return S(o) + self

    def sub(self, a, b):
        out = []
        pos = 0
        for s, o, n in self.p:
            lo = max(a, pos)
            hi = min(b, pos + n)
            if lo < hi:
                out.append((s, o + lo - pos, hi - lo))
            pos += n
            if pos >= b:
                break
        return Str(out)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, st = i.indices(self.n)
            return self.sub(a, b)
        return self.get(i, 1)

    def get(self, off, n):
        """n bytes at off as a little-endian value."""
        segs = []
        pos = 0
        end = off + n
        for s, o, k in self.p:
            if pos + k > off:
                if pos >= end:
                    break
                lo = max(off, pos)
                hi = min(end, pos + k)
                segs.append((s.get(o + lo - pos, hi - lo), 8 * (hi - lo)))
            pos += k
        if pos < end and sum(x[1] for x in segs) != 8 * n:
            raise IndexError('Str.get')
        if len(segs) == 1:
            return segs[0][0]
        return tm.cat(segs)

    def xor(self, o):
        """Bytewise xor with a string of the same length."""
        assert self.n == o.n
        return V([(tm.xor(self.get(i, k), o.get(i, k), 8 * k), k) for i, k in chunks(self.n)])

    def bytes(self):
        return [self.get(i, 1) for i in range(self.n)]

    def concrete(self):
        out = bytearray()
        for i, k in chunks(self.n):
            v = self.get(i, k)
            if type(v) is not int:
                raise ValueError('not concrete')
            out += v.to_bytes(k, 'little')
        return bytes(out)


def chunks(n, c=8):
    i = 0
    while i < n:
        k = min(c, n - i)
        yield i, k
        i += k


class _B:
    def __init__(self, b):
        self.b = b

    def get(self, off, n):
        return int.from_bytes(self.b[off:off + n], 'little')


class _V:
    """List of (value, nbytes)."""

    def __init__(self, vals):
        self.v = vals
        self.pos = []
        p = 0
        for _, k in vals:
            self.pos.append(p)
            p += k
        self.n = p

    def get(self, off, n):
        import bisect
        i = bisect.bisect_right(self.pos, off) - 1
        segs = []
        end = off + n
        while i < len(self.v) and self.pos[i] < end:
            v, k = self.v[i]
            p = self.pos[i]
            lo = max(off, p)
            hi = min(end, p + k)
            segs.append((tm.ext(v, 8 * (lo - p), 8 * (hi - lo)), 8 * (hi - lo)))
            i += 1
        if len(segs) == 1:
            return segs[0][0]
        return tm.cat(segs)


def S(x):
    if isinstance(x, Str):
        return x
    if isinstance(x, (bytes, bytearray)):
        return Str([(_B(bytes(x)), 0, len(x))])
    raise TypeError(x)


def V(vals):
    s = _V(list(vals))
    return Str([(s, 0, s.n)])


def lanes(vals, w=8):
    return V([(v, w) for v in vals])


def src(s, n):
    return Str([(s, 0, n)])


EMPTY = Str()
