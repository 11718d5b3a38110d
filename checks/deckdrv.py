"""Operations of the deck function harness with their models."""
from modelib import *
import farfalle as ff

BY = lambda bits: (bits + 7) // 8
INIT, LAST, SHORT = 1, 2, 4
Z8 = lambda n: EMPTY + bytes(n)


class NoCtx:
    def keccak(self, A, n):
        return [0] * 25

    def xoodoo(self, A, n):
        return [0] * 12


def decks(ctx, kind, slot=0):
    return ctx.o[slot]


def dkey(s, kind, kb, slot=0):
    bad = kb >= (1600 if kind == 'kravatte' else 384)

    def f(ctx, K):
        if bad:
            return 1
        ctx.o[slot] = ff.Deck(ctx, kind)
        ctx.o[slot].key(K, kb)
        return 0
    s.op(1, slot, (kb,), (BY(kb),), ('r',), f, f'key {kb}')
    if not bad:
        s.__dict__.setdefault('sh', {})[slot] = d = ff.Deck(NoCtx(), kind)
        d.key(Z8(BY(kb)), kb)


def dcompress(s, bits, flags, slot=0):
    s.sh[slot].compress(Z8(BY(bits)), bits, flags & LAST, flags & INIT)
    s.op(2, slot, (bits, flags), (BY(bits),), ('r',), lambda ctx, x: ctx.o[slot].compress(x, bits, flags & LAST, flags & INIT), f'compress {bits} flags {flags}')


def dexpand(s, bits, flags, slot=0):
    bad = s.sh[slot].expand(bits, flags & LAST, flags & SHORT) is None

    def f(ctx):
        r = ctx.o[slot].expand(bits, flags & LAST, flags & SHORT)
        return [1] if r is None else (0, r)
    s.op(3, slot, (bits, flags), (), ('r',) if bad else ('r', BY(bits)), f, f'expand {bits} flags {flags}')


def dboth(s, n, m, flags, slot=0):
    def g(d, x):
        d.compress(x, n, True, flags & INIT)
        return 0, d.expand(m, True, flags & SHORT)
    g(s.sh[slot], Z8(BY(n)))
    s.op(4, slot, (n, m, flags), (BY(n),), ('r', BY(m)), lambda ctx, x: g(ctx.o[slot], x), f'deck {n} {m} flags {flags}')


# ---- SANE

def ainit(s, kind, kb, nb, slot=0, at=None):
    bad = kb >= (1600 if kind == 'kravatte' else 384)

    def f(ctx, K, N):
        if bad:
            return [1]
        ctx.o[slot] = ff.Sane(ctx, kind, K, kb, N, nb)
        return 0, ctx.o[slot].tag
    s.op(10, slot, (kb, nb), (BY(kb), BY(nb)), ('r',) if bad else ('r', 16), f, f'sane key {kb} nonce {nb}', at)


def awrap(s, pb, ab, slot=0):
    def f(ctx, P, A):
        C, t = ctx.o[slot].wrap(ff.bits_of(P, pb), ff.bits_of(A, ab))
        return 0, C[0], t
    return s.op(11, slot, (pb, ab), (BY(pb), BY(ab)), ('r', BY(pb), 16), f, f'wrap {pb} ad {ab}')


def verdict(P, ok):
    """Return value and plaintext buffer when the tag comparison gives ok (an int or a one-bit term)."""
    if type(ok) is int:
        return (0, P) if ok else (1, Z8(len(P)))
    z = V([(tm.ite(ok, P.get(i, 1), 0, 8), 1) for i in range(len(P))])
    return tm.ite(ok, 0, 1, 64), z


def same(a, b):
    """One-bit term: the strings are equal."""
    d = a.xor(b)
    acc = 0
    for i in range(len(d)):
        acc = tm.or_(acc, d.get(i, 1), 8)
    return tm.gen('eq', acc, 0, 8) if type(acc) is not int else int(acc == 0)


def aunwrap(s, cb, ab, src=None, slot=0, at=None, plain=None):
    """src: output offsets of (ciphertext, tag) of an earlier wrap, None for fresh inputs."""
    co, to = src or (-1, -1)

    def f(ctx, *x):
        x = list(x)
        C = ctx.out(co, BY(cb)) if co >= 0 else x.pop(0)
        A = x.pop(0)
        T = ctx.out(to, 16) if to >= 0 else x.pop(0)
        P, t = ctx.o[slot].unwrap(ff.bits_of(C, cb), ff.bits_of(A, ab))
        if plain is not None:
            return 0, ctx.inp(plain, cb)
        return verdict(P[0], same(t, T))
    ins = ([] if co >= 0 else [BY(cb)]) + [BY(ab)] + ([] if to >= 0 else [16])
    s.op(12, slot, (cb, ab, co + 1, to + 1), ins, ('r', BY(cb)), f, f'unwrap {cb} ad {ab}', at)


# ---- SANSE

def einit(s, kind, kb, slot=0, at=None):
    bad = kb >= (1600 if kind == 'kravatte' else 384)

    def f(ctx, K):
        if bad:
            return [1]
        ctx.o[slot] = ff.Sanse(ctx, kind, K, kb)
        return 0
    s.op(20, slot, (kb,), (BY(kb),), ('r',), f, f'sanse key {kb}', at)


def ewrap(s, pb, ab, slot=0):
    def f(ctx, P, A):
        C, t = ctx.o[slot].wrap(ff.bits_of(P, pb), ff.bits_of(A, ab))
        return 0, C[0], t
    return s.op(21, slot, (pb, ab), (BY(pb), BY(ab)), ('r', BY(pb), 32), f, f'wrap {pb} ad {ab}')


def eunwrap(s, cb, ab, src=None, slot=0, at=None, plain=None):
    co, to = src or (-1, -1)

    def f(ctx, *x):
        x = list(x)
        C = ctx.out(co, BY(cb)) if co >= 0 else x.pop(0)
        A = x.pop(0)
        T = ctx.out(to, 32) if to >= 0 else x.pop(0)
        P, t = ctx.o[slot].unwrap(ff.bits_of(C, cb), ff.bits_of(A, ab), T)
        if plain is not None:
            return 0, ctx.inp(plain, cb)
        return verdict(P[0], same(t, T))
    ins = ([] if co >= 0 else [BY(cb)]) + [BY(ab)] + ([] if to >= 0 else [32])
    s.op(22, slot, (cb, ab, co + 1, to + 1), ins, ('r', BY(cb)), f, f'unwrap {cb} ad {ab}', at)


# ---- WBC
# src: output offset of an earlier result to use as text; plain: input offset of the text the result has to equal

def wbc(s, inv, n, w, slot=0, src=None, at=None, plain=None, back=None):
    """One (de)encipherment. plain/back: the result must equal that input (plain) or that output (back)."""
    def f(ctx, *x):
        x = list(x)
        X = x.pop(0) if src is None else ctx.out(src, BY(n))
        if plain is not None:
            return 0, ctx.inp(plain, n)
        if back is not None:
            return 0, ctx.out(back, BY(n))
        o = ff.Wbc(ctx.o[slot])
        return 0, (o.decipher if inv else o.encipher)(ff.bits_of(X, n), ff.bits_of(x[0], w))[0]
    return s.op(31 if inv else 30, slot, (n, w, 0 if src is None else src + 1), ([BY(n)] if src is None else []) + [BY(w)], ('r', BY(n)), f,
                f'{"de" if inv else "en"}cipher {n} tweak {w}', at)


def waenc(s, n, w, slot=0):
    def f(ctx, P, W):
        p = ff.cat(ff.bits_of(P, n), ff.const(0, 128))
        return 0, ff.Wbc(ctx.o[slot]).encipher(p, ff.bits_of(W, w))[0]
    return s.op(32, slot, (n, w), (BY(n), BY(w)), ('r', BY(n + 128)), f, f'AE encipher {n} ad {w}')


def wadec(s, n, w, src=None, slot=0, at=None, plain=None):
    m = n + 128

    def f(ctx, *x):
        x = list(x)
        C = x.pop(0) if src is None else ctx.out(src, BY(m))
        if plain is not None:
            return 0, ctx.inp(plain, n) + Z8(16)
        P = ff.Wbc(ctx.o[slot]).decipher(ff.bits_of(C, m), ff.bits_of(x[0], w))[0]
        tail = P[n // 8:]
        if n % 8:
            tail = V([(tm.and_(P.get(n // 8, 1), 255 ^ ((1 << n % 8) - 1), 8), 1)]) + P[n // 8 + 1:]
        return verdict(P, same(tail, Z8(len(tail))))
    return s.op(33, slot, (n, w, 0 if src is None else src + 1), ([BY(m)] if src is None else []) + [BY(w)], ('r', BY(m)), f, f'AE decipher {n} ad {w}', at)
