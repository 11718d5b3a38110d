"""Operations of the hash-function harness (harness/hash.c) with their models."""
from modelib import *
from modes import Sponge, maskbits, append_delim, left_encode, right_encode

FRAGS = ['KeccakSponge', 'FIPS202', 'TurboSHAKE', 'SP800-185']


def hunit(c, target):
    return unit_mode(c, target, FRAGS, 'hash.c')


# ---- sponge and TurboSHAKE (same life cycle)

def init(s, rate, cap, slot=0):
    def f(ctx):
        if rate + cap == 1600 and rate > 0 and rate % 8 == 0:
            ctx.o[slot] = Sponge(ctx, rate // 8)
            return 0
        return 1
    s.op(1, slot, (rate, cap), (), ('r',), f, f'init({rate},{cap})')


def tinit(s, sec, cap=0, slot=0):
    cap = {128: 256, 256: 512}.get(sec, cap)

    def f(ctx):
        if cap > 512 or cap % 8:
            return 1
        ctx.o[slot] = Sponge(ctx, 200 - cap // 8, 12)
        return 0
    s.op(20, slot, (sec, cap), (), ('r',), f, f'tinit({cap})')


def absorb(s, n, slot=0, op=2):
    def f(ctx, m):
        o = ctx.o[slot]
        if o.A is not None:
            return 1
        o.absorb(m)
        return 0
    s.op(op, slot, (n,), (n,), ('r',), f, f'absorb {n}')


def last(s, delim, slot=0, op=3):
    def f(ctx):
        o = ctx.o[slot]
        if o.A is not None or delim == 0:
            return 1
        o.finish(delim)
        return 0
    s.op(op, slot, (delim,), (), ('r',), f, f'last {delim:#x}')


def last_sym(s, slot=0):
    def f(ctx, d):
        o = ctx.o[slot]
        b = d.get(0, 1)
        o.finish(b)
        return tm.gen('eq', b, 0, 8) if type(b) is not int else int(b == 0)
    s.op(4, slot, (), (1,), ('r',), f, 'last <symbolic>')


def squeeze(s, n, slot=0, op=5, guard=None):
    def f(ctx):
        o = ctx.o[slot]
        if o.A is None:
            o.finish(1)
        return 0, o.squeeze(n)
    s.op(op, slot, (n,), (), ('r', n), f, f'squeeze {n}')


def oneshot(s, rate, cap, n, delim, out):
    ok = rate + cap == 1600 and rate > 0 and rate % 8 == 0 and delim != 0

    def f(ctx, m):
        if not ok:
            return [1]
        return 0, modes.sponge(ctx, rate // 8, m, delim, out)
    s.op(6, 0, (rate, cap, n, delim, out), (n,), ('r', out) if ok else ('r',), f, f'sponge({rate},{n},{delim:#x},{out})')


# ---- FIPS 202

PAR = {128: (1344, 0, 0x1F), 257: (1088, 0, 0x1F), 224: (1152, 224, 6), 256: (1088, 256, 6), 384: (832, 384, 6), 512: (576, 512, 6)}


class Hash:
    def __init__(self, ctx, rate, outbits, delim):
        self.s = Sponge(ctx, rate // 8)
        self.outbits, self.d = outbits, delim

    def update(self, m, bits):
        if self.s.A is not None:
            return 1
        m, self.d = append_delim(m, bits, self.d)
        self.s.absorb(m)
        return 0


def hinit(s, kind, rate=0, cap=0, outbits=0, delim=0, slot=0):
    def f(ctx):
        if kind:
            ctx.o[slot] = Hash(ctx, *PAR[kind])
            return 0
        if delim == 0 or rate + cap != 1600 or rate <= 0 or rate % 8:
            return 1
        ctx.o[slot] = Hash(ctx, rate, outbits, delim)
        return 0
    s.op(10, slot, (kind, rate, cap, outbits, delim), (), ('r',), f, f'hinit({kind},{rate},{outbits},{delim:#x})')


def hupdate(s, bits, slot=0):
    n = (bits + 7) // 8
    s.op(11, slot, (bits,), (n,), ('r',), lambda ctx, m: ctx.o[slot].update(m, bits), f'update {bits}b')


def hfinal(s, outbytes, slot=0):
    """outbytes is the fixed output length in bytes."""
    def f(ctx):
        h = ctx.o[slot]
        assert h.outbits // 8 == outbytes
        h.s.finish(h.d)
        return 0, h.s.squeeze(outbytes)
    s.op(12, slot, (outbytes,), (), ('r', outbytes), f, f'final {outbytes}')


def hsqueeze(s, bits, slot=0):
    def f(ctx):
        if bits % 8:
            return [1]
        return 0, ctx.o[slot].s.squeeze(bits // 8)
    s.op(13, slot, (bits,), (), ('r', bits // 8) if bits % 8 == 0 else ('r',), f, f'hsqueeze {bits}b')


def simple(s, kind, n, out):
    rate, ob, d = PAR[kind]
    out = ob // 8 or out
    s.op(14, 0, (kind, n, out), (n,), ('r', out), lambda ctx, m: (0, modes.sponge(ctx, rate // 8, m, d, out)), f'simple {kind} {n}->{out}')


# ---- TurboSHAKE one-shot

def turbo(s, cap, n, dom, out):
    ok = cap <= 512 and cap % 8 == 0 and dom != 0

    def f(ctx, m):
        if not ok:
            return [1]
        return 0, modes.sponge(ctx, 200 - cap // 8, m, dom, out, 12)
    s.op(24, 0, (cap, n, dom, out), (n,), ('r', out) if ok else ('r',), f, f'turbo({cap},{n},{dom:#x},{out})')


# ---- SP 800-185

NB = lambda bits: (bits + 7) // 8


class X185:
    """Incremental object of cSHAKE, KMAC, TupleHash or ParallelHash; error rules as documented."""

    def __init__(self, ctx, kind, sec, L, **kw):
        self.ctx, self.kind, self.sec, self.L = ctx, kind, sec, L
        self.__dict__.update(kw)
        self.msg, self.bits = EMPTY, 0
        self.elems = []
        self.phase = 0

    def update(self, m, bits):
        if self.phase:
            return 1
        if self.bits % 8 or (self.kind != 'c' and bits % 8):
            return 1
        self.msg, self.bits = self.msg + m, self.bits + bits
        return 0

    def final(self):
        if self.phase:
            return [1]
        c, sec = self.ctx, self.sec
        if self.kind == 'c':
            self.s = modes.cshake(c, sec, self.N, self.nb, self.S, self.sb, self.msg, self.bits)
        elif self.kind == 'k':
            self.s = modes.kmac(c, sec, self.K, self.kb, self.S, self.sb, self.msg, self.L)
        elif self.kind == 't':
            self.s = modes.tuplehash(c, sec, self.elems, self.S, self.sb, self.L)
        else:
            self.s = modes.parallelhash(c, sec, self.B, self.S, self.sb, self.msg, self.L)
        self.phase = 1
        if self.L:
            o = self.squeeze(self.L)
            self.phase = 2
            return o
        return 0, EMPTY

    def squeeze(self, bits):
        if self.phase != 1:
            return [1]
        o = maskbits(self.s.squeeze(NB(bits)), bits)
        if bits % 8:
            self.phase = 2
        return 0, o


def cinit(s, sec, L, nb, sb, slot=0, raw=0):
    def f(ctx, N, S):
        if nb % 8:
            return 1
        ctx.o[slot] = X185(ctx, 'c', sec, L, N=N, nb=nb, S=S, sb=sb)
        return 0
    s.op(200 * raw + 30, slot, (sec, L, nb, sb), (NB(nb), NB(sb)), ('r',), f, f'cSHAKE{sec} init L={L} N={nb} S={sb}')


def kinit(s, sec, L, kb, sb, slot=0, raw=0):
    def f(ctx, K, S):
        ctx.o[slot] = X185(ctx, 'k', sec, L, K=K, kb=kb, S=S, sb=sb)
        return 0
    s.op(200 * raw + 40, slot, (sec, L, kb, sb), (NB(kb), NB(sb)), ('r',), f, f'KMAC{sec} init L={L} K={kb} S={sb}')


def tuinit(s, sec, L, sb, slot=0, raw=0):
    def f(ctx, S):
        ctx.o[slot] = X185(ctx, 't', sec, L, S=S, sb=sb)
        return 0
    s.op(200 * raw + 50, slot, (sec, L, sb), (NB(sb),), ('r',), f, f'TupleHash{sec} init L={L} S={sb}')


def pinit(s, sec, L, Bl, sb, slot=0):
    def f(ctx, S):
        if Bl < 8 or Bl & (Bl - 1):
            return 1
        ctx.o[slot] = X185(ctx, 'p', sec, L, S=S, sb=sb, B=Bl)
        return 0
    s.op(60, slot, (sec, L, Bl & 0xFFFFFFFF, sb, Bl >> 32), (NB(sb),), ('r',), f, f'ParallelHash{sec} init L={L} B={Bl} S={sb}')


BASE = {'c': 30, 'k': 40, 't': 50, 'p': 60}


def xupdate(s, kind, sec, bits, slot=0):
    s.op(BASE[kind] + 1, slot, (sec, bits), (NB(bits),), ('r',), lambda ctx, m: ctx.o[slot].update(m, bits), f'update {bits}b')


def tupdate(s, sec, lens, slot=0):
    """lens in bits (whole bytes), at most three"""
    def f(ctx, *es):
        o = ctx.o[slot]
        if o.phase:
            return int(len(es) > 0)
        o.elems += es
        return 0
    s.op(51, slot, (sec, len(lens)) + tuple(lens), [l // 8 for l in lens], ('r',), f, f'elements {lens}')


def xfinal(s, kind, sec, L, err=False, slot=0):
    s.op(BASE[kind] + 2, slot, (sec, L), (), ('r',) if err else ('r', NB(L)), lambda ctx: ctx.o[slot].final(), 'final')


def xsqueeze(s, kind, sec, bits, err=False, slot=0):
    s.op(BASE[kind] + 3, slot, (sec, bits), (), ('r',) if err else ('r', NB(bits)), lambda ctx: ctx.o[slot].squeeze(bits), f'squeeze {bits}b')


def cone(s, sec, mb, L, nb, sb, raw=0):
    bad = L == 0 or nb % 8

    def f(ctx, m, N, S):
        if bad:
            return [1]
        return 0, maskbits(modes.cshake(ctx, sec, N, nb, S, sb, m, mb).squeeze(NB(L)), L)
    s.op(200 * raw + 34, 0, (sec, mb, L, nb, sb), (NB(mb), NB(nb), NB(sb)), ('r',) if bad else ('r', NB(L)), f, f'cSHAKE{sec}({mb},{L},{nb},{sb})')


def kone(s, sec, mb, L, kb, sb, raw=0):
    bad = L == 0 or mb % 8

    def f(ctx, m, K, S):
        if bad:
            return [1]
        return 0, maskbits(modes.kmac(ctx, sec, K, kb, S, sb, m, L).squeeze(NB(L)), L)
    s.op(200 * raw + 44, 0, (sec, mb, L, kb, sb), (NB(mb), NB(kb), NB(sb)), ('r',) if bad else ('r', NB(L)), f, f'KMAC{sec}({mb},{L},{kb},{sb})')


def tone(s, sec, lens, L):
    bad = L == 0 or any(l % 8 for l in lens)

    def f(ctx, *es):
        if bad:
            return [1]
        return 0, maskbits(modes.tuplehash(ctx, sec, es, Str() + b'Cu', 16, L).squeeze(NB(L)), L)
    a = list(lens) + [0] * (3 - len(lens))
    s.op(54, 0, (sec, len(lens), *a, L), [NB(l) for l in lens], ('r',) if bad else ('r', NB(L)), f, f'TupleHash{sec}({lens},{L})')


def pone(s, sec, mb, L, Bl, sb):
    bad = L == 0 or mb % 8 or Bl < 8 or Bl & (Bl - 1)

    def f(ctx, m, S):
        if bad:
            return [1]
        return 0, maskbits(modes.parallelhash(ctx, sec, Bl, S, sb, m, L).squeeze(NB(L)), L)
    s.op(64, 0, (sec, mb, L, Bl, sb), (NB(mb), NB(sb)), ('r',) if bad else ('r', NB(L)), f, f'ParallelHash{sec}({mb},{L},B={Bl},{sb})')
