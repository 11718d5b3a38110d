"""The Cyclist mode of Xoodyak (Xoodyak[Xoodoo[12]]: Rhash 16, Rkin 44, Rkout 24, ratchet 16), as published."""
from modes import add_lanes, B
from strs import Str, lanes, EMPTY

RHASH, RKIN, RKOUT, RATCHET, W = 16, 44, 24, 16, 48


def blocks(x, r):
    return [x[i:i + r] for i in range(0, len(x), r)] or [EMPTY]


class Cyclist:
    def __init__(self, ctx, K, ID, counter):
        self.ctx = ctx
        self.s = [0] * 12
        self.up_phase = True
        self.hash = True
        self.ra = self.rs = RHASH
        if len(K):
            assert len(K) + len(ID) <= RKIN - 1
            self.hash = False
            self.ra, self.rs = RKIN, RKOUT
            self.absorb_any(K + ID + B(len(ID)), self.ra, 0x02)
            if len(counter):
                self.absorb_any(counter, 1, 0)

    def down(self, x, c):
        self.up_phase = False
        if self.hash:
            c &= 1
        self.s = add_lanes(self.s, x + B(1) + bytes(W - 2 - len(x)) + B(c), 0, 4)

    def up(self, n, c):
        self.up_phase = True
        s = self.s
        if not self.hash:
            s = add_lanes(s, B(c), W - 1, 4)
        self.s = list(self.ctx.xoodoo(s, 12))
        return lanes(self.s, 4)[:n]

    def absorb_any(self, x, r, c):
        for i, b in enumerate(blocks(x, r)):
            if not self.up_phase:
                self.up(0, 0)
            self.down(b, c if i == 0 else 0)

    def squeeze_any(self, n, c):
        y = self.up(min(n, self.rs), c)
        while len(y) < n:
            self.down(EMPTY, 0)
            y = y + self.up(min(n - len(y), self.rs), 0)
        return y

    def crypt(self, x, dec):
        out = EMPTY
        for i, b in enumerate(blocks(x, RKOUT)):
            o = b.xor(self.up(len(b), 0x80 if i == 0 else 0))
            self.down(o if dec else b, 0)
            out = out + o
        return out

    def absorb(self, x):
        self.absorb_any(x, self.ra, 0x03)

    def squeeze(self, n):
        return self.squeeze_any(n, 0x40)

    def squeeze_key(self, n):
        return self.squeeze_any(n, 0x20)

    def ratchet(self):
        self.absorb_any(self.squeeze_any(RATCHET, 0x10), self.ra, 0)
