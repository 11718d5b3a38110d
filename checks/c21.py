"""C21: Xoodyak."""
from modelib import *
from cyclist import Cyclist

REFUSED = ()


def yinit(s, k, i, n, slot=0, nul=0, at=None):
    def f(ctx, K, ID, C):
        ctx.o[slot] = Cyclist(ctx, K, ID, C)
    s.op(1, slot, (k, i, n, 0, 0, nul), (k, i, n), (), f, f'init {k}/{i}/{n}', at)


def yabsorb(s, n, slot=0, nul=0, at=None):
    s.op(2, slot, (n, 0, 0, 0, 0, nul), (n,), (), lambda ctx, x: ctx.o[slot].absorb(x), f'absorb {n}', at)


def ycrypt(s, n, dec=False, src=None, inplace=0, slot=0, plain=None):
    def f(ctx, *x):
        o = ctx.o[slot].crypt(x[0] if x else ctx.out(src, n), dec)
        return ctx.inp(plain, 8 * n) if plain is not None else o
    return s.op(4 if dec else 3, slot, (n, 0 if src is None else src + 1, 0, 0, 0, 2 * inplace), (n,) if src is None else (), (n,), f,
                f'{"de" if dec else "en"}crypt {n}{" in place" if inplace else ""}')


def ysqueeze(s, n, key=False, slot=0):
    s.op(6 if key else 5, slot, (n,), (), (n,), lambda ctx: (ctx.o[slot].squeeze_key if key else ctx.o[slot].squeeze)(n), f'squeeze{"key" if key else ""} {n}')


def yratchet(s, slot=0):
    s.op(7, slot, (), (), (), lambda ctx: ctx.o[slot].ratchet(), 'ratchet')


LEN = [0, 1, 15, 16, 17, 23, 24, 25, 31, 32, 33, 43, 44, 45, 47, 48, 49, 64, 71, 72, 73, 87, 88, 89, 95, 96, 131, 132, 133, 176, 177, 192, 240, 264,
       287, 288, 352, 528, 704]


def rlen(rng):
    return rng.choice(LEN) if rng.random() < .6 else rng.randint(0, 400)


def keyed(rng, s, slot=0, **kw):
    k = rng.choice([1, 8, 16, 16, 32, 43])
    i = rng.choice([0, 0, 1, 16, 43 - k])
    yinit(s, k, min(i, 43 - k), rng.choice([0, 0, 1, 2, 16]), slot, rng.randint(0, 1))
    return k


def scripts(rng, full):
    sc = []
    for n in (range(0, 800) if full else LEN):
        # each length alone, then an observation of the state
        s = Script()
        yinit(s, 0, 0, 0, nul=n & 1)
        yabsorb(s, n)
        ysqueeze(s, 16)
        yinit(s, 0, rng.choice([0, 4]), rng.choice([0, 3]))
        yabsorb(s, 5)
        ysqueeze(s, n)
        yabsorb(s, 1)
        ysqueeze(s, 17)
        keyed(rng, s)
        yabsorb(s, n)
        ysqueeze(s, 24)
        keyed(rng, s)
        ysqueeze(s, n)
        ysqueeze(s, 8)
        keyed(rng, s)
        ysqueeze(s, n, True)
        yratchet(s)
        ysqueeze(s, 8)
        for inplace in (0, 1):
            for dec in (False, True):
                keyed(rng, s)
                yabsorb(s, rng.choice([0, 16]))
                ycrypt(s, n, dec, inplace=inplace)
                ysqueeze(s, 16)
        sc.append(s)
    for k in (range(1, 44) if full else [1, 2, 15, 16, 17, 31, 32, 42, 43]):
        s = Script()
        for i in (0, 1, 16, 43 - k):
            if k + i > 43:
                continue
            for n in (0, 1, 2, 16, 45):
                yinit(s, k, i, n, nul=(i + n) & 1)
                ysqueeze(s, 16)
        sc.append(s)
    for _ in range(400 if full else 60):
        s = Script()
        if rng.random() < .3:
            yinit(s, 0, 0, 0)
            for _ in range(rng.randint(2, 10)):
                if rng.random() < .5:
                    yabsorb(s, rlen(rng), nul=rng.randint(0, 1))
                else:
                    ysqueeze(s, rlen(rng))
        else:
            keyed(rng, s)
            for _ in range(rng.randint(3, 12)):
                k = rng.randrange(6)
                if k == 0:
                    yabsorb(s, rlen(rng), nul=rng.randint(0, 1))
                elif k == 1:
                    ysqueeze(s, rlen(rng))
                elif k == 2:
                    ysqueeze(s, rlen(rng), True)
                elif k == 3:
                    yratchet(s)
                else:
                    ycrypt(s, rlen(rng), k == 5, inplace=rng.randint(0, 1))
        ysqueeze(s, 32)
        sc.append(s)
    # two sides with the same history
    for _ in range(200 if full else 40):
        s = Script()
        k = keyed(rng, s)
        ins = list(s.ins)
        a = s.steps[-1][0]
        yinit(s, a[0][1], a[1][1], a[2][1], slot=1, at=ins[0])
        for _ in range(rng.randint(1, 5)):
            q = rng.randrange(5)
            x, y = (0, 1) if rng.random() < .5 else (1, 0)
            n = rlen(rng)
            if q == 0:
                yabsorb(s, n, 0)
                i = s.ins[0]
                yabsorb(s, n, 1, at=i)
            elif q == 1:
                yratchet(s, 0)
                yratchet(s, 1)
            else:
                co, = ycrypt(s, n, False, inplace=rng.randint(0, 1), slot=x)
                i = s.ins[0]
                ycrypt(s, n, True, src=co, inplace=rng.randint(0, 1), slot=y, plain=i)
            ysqueeze(s, 16, slot=0)
            ysqueeze(s, 16, slot=1)
        sc.append(s)
    return sc


def main():
    c = Check('C21')
    full = TIER == 'thorough'
    c.bounds = ['all keys, identifiers, counters and data symbolic; permutation and low-level services (full-block functions included) replaced by their '
                'contracts (decided by C05-C07)',
                'key + identifier of 0..43 bytes, counters of 0..45 bytes, data and outputs of 0..800 bytes, histories of up to 12 operations, '
                'out of place and in place, sessions between two sides']
    c.assumptions = ['low-level services behave as their contracts']
    for t in (TARGETS if full else ['reference', 'generic32', 'generic64', 'SSSE3', 'AVX2', 'AVX512']):
        rng = random.Random(SEED)
        u = unit_mode(c, t, ['Xoodyak'], 'yak.c')
        grouped(c, f'{t} Xoodyak', u, 'h_yak', scripts(rng, full), per=8)
    c.run()
