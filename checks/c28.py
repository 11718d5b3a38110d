"""C28: the same calls on every target the library is built for."""
import hashdrv as H
import dupdrv as D
import deckdrv as K
import c13 as T
import c21 as Y
import sanecheck
from modelib import *

ALL = ['reference', 'reference32bits', 'compact', 'generic32', 'generic32lc', 'generic64', 'generic64lc', 'SSSE3', 'AVX', 'XOP', 'AVX2', 'AVX2noAsm',
       'AVX512', 'AVX512noAsm']


def sc(f, *a, **k):
    s = Script()
    f(s, *a, **k)
    return s


def many(*calls):
    s = Script()
    for f, *a in calls:
        f(s, *a)
    return s


# ---- with contracts: the calls the modes make on each target

def hashes(rng):
    out = []
    for kind in (128, 257, 224, 256, 384, 512):
        s = Script()
        H.simple(s, kind, rng.randint(0, 600), rng.randint(1, 600))
        H.hinit(s, kind)
        for n in split(rng, rng.randint(0, 500), 3):
            H.hupdate(s, 8 * n)
        H.hupdate(s, rng.randint(0, 7))
        H.hfinal(s, H.PAR[kind][1] // 8)
        H.hsqueeze(s, 8 * rng.randint(0, 400))
        H.turbo(s, rng.choice([256, 512]), rng.randint(0, 900), rng.randint(1, 255), rng.randint(1, 500))
        out.append(s)
    for rate in (8, 40, 64, 1152, 1344, 1408, 1592, 1600):
        s = Script()
        H.init(s, rate, 1600 - rate)
        for n in split(rng, rng.randint(0, 8 * rate // 4), 4):
            H.absorb(s, n)
        H.last(s, rng.randint(2, 255))
        for n in split(rng, rng.randint(0, 8 * rate // 4), 3):
            H.squeeze(s, n)
        out.append(s)
    for sec in (128, 256):
        for _ in range(3):
            s = Script()
            H.cone(s, sec, rng.randint(0, 3000), rng.randint(1, 3000), 8 * rng.randint(0, 40), 8 * rng.randint(0, 40))
            H.kone(s, sec, 8 * rng.randint(0, 400), rng.randint(1, 3000), rng.randint(0, 800), 8 * rng.randint(0, 40))
            H.tone(s, sec, [8 * rng.randint(0, 100) for _ in range(3)], rng.randint(1, 2000))
            out.append(s)
        for Bl in (8, 64, 128, 512, 1024):
            for nb in (1, 2, 3, 4, 5, 7, 8, 11, 16):
                out.append(sc(H.pone, sec, 8 * (nb * Bl + rng.choice([0, 1, Bl - 1])), rng.randint(1, 1000), Bl, 8 * rng.randint(0, 20)))
            s = Script()
            H.pinit(s, sec, 0, Bl, 24)
            for n in split(rng, rng.randint(0, 19 * Bl), 4):
                H.xupdate(s, 'p', sec, 8 * n)
            H.xfinal(s, 'p', sec, 0)
            H.xsqueeze(s, 'p', sec, 777)
            out.append(s)
    return out


def kts(rng):
    out = []
    C = 8192
    for sec in (128, 256):
        for k in (0, 1, 2, 3, 4, 5, 8, 9, 10, 13, 17):
            out.append(sc(T.kone, sec, max(0, k * C + rng.choice([-1, 0, 1, 777])), 100, rng.choice([0, 41])))
        s = Script()
        T.kinit(s, sec, 0)
        for n in split(rng, 15 * C + 3, 4):
            T.kupdate(s, n)
        T.kfinal(s, 0, 3)
        T.ksqueeze(s, 400)
        out.append(s)
    return out


def duplexes(rng):
    out = []
    for rate in (3, 9, 64, 1023, 1344, 1600):
        s = Script()
        D.dinit(s, rate, 1600 - rate)
        m = max(0, (rate - 2) // 8 - 1)
        for _ in range(4):
            if m:
                D.feed(s, rng.randint(0, m // 2))
                D.over(s, rng.randint(0, m // 4))
            D.duplexing(s, rng.randint(0, m // 4) if m else 0, rng.randint(0, (rate + 7) // 8), 1)
            D.further(s, 0)
        out.append(s)
    for cap in (254, 510, 1000):
        s = Script()
        D.ginit(s, cap)
        for _ in range(4):
            D.gfeed(s, rng.randint(0, 300))
            D.gfetch(s, rng.randint(0, 300))
        D.gforget(s)
        D.gfetch(s, 40)
        out.append(s)
    return out


def decks(rng, kind):
    b = 1600 if kind == 'kravatte' else 384
    out = []
    for k in (0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 33):
        s = Script()
        K.dkey(s, kind, rng.randint(0, b - 1))
        K.dboth(s, k * b + rng.randint(0, 9), rng.randint(1, 99), 0)
        K.dboth(s, rng.randint(0, 99), k * b + rng.randint(0, 9), rng.choice([K.INIT, K.SHORT]))
        out.append(s)
        s = Script()
        K.dkey(s, kind, 128)
        K.wbc(s, False, k * b + rng.randint(0, 9), rng.randint(0, 20))
        K.wbc(s, True, k * b + rng.randint(0, 9), rng.randint(0, 20))
        K.waenc(s, k * b + rng.randint(0, 9), rng.randint(0, 20))
        out.append(s)
    for sanse in (False, True):
        o = sanecheck.Ops(kind, sanse)
        s = Script()
        o.init(s, 128, 64)
        for k in (0, 1, 4, 9):
            o.wrap(s, k * b + rng.randint(0, 9), rng.randint(0, 3 * b))
        out.append(s)
    return out


# ---- whole programs: nothing replaced

def whole_hash(full, slow):
    t = [sc(H.simple, 256, 150, 0), sc(H.simple, 512, 71, 0)]
    if slow:
        return t
    t.append(sc(H.simple, 128, 16, 200))
    t += [sc(H.simple, 224, 300, 0), sc(H.simple, 384, 208, 0), sc(H.simple, 257, 272, 140), sc(H.turbo, 256, 400, 0x1F, 200), sc(H.turbo, 512, 135, 0x80, 300),
          sc(H.cone, 128, 101, 300, 24, 13), sc(H.kone, 256, 1600, 256, 131, 24), sc(H.tone, 128, [8, 0, 240], 99)]
    s = Script()
    H.hinit(s, 128)
    for n in (3, 200, 61):
        H.hupdate(s, 8 * n)
    H.hupdate(s, 5)
    H.hfinal(s, 0)
    H.hsqueeze(s, 8 * 100)
    H.hsqueeze(s, 8 * 100)
    t.append(s)
    s = Script()
    H.init(s, 1024, 576)
    for n in (5, 600, 1):
        H.absorb(s, n)
    H.last(s, 3)
    H.squeeze(s, 300)
    t.append(s)
    for nb in (1, 2, 3, 4, 7, 8, 9, 19):
        t.append(sc(H.pone, 128, 64 * nb, 256, 8, 0))
    for nb in (1, 3, 4, 8, 15):
        t.append(sc(H.pone, 256, 8 * (256 * nb + 5), 512, 256, 8))
    s = Script()
    H.pinit(s, 128, 0, 16, 0)
    for n in (8, 100, 40, 200, 3):
        H.xupdate(s, 'p', 128, 8 * n)
    H.xfinal(s, 'p', 128, 0)
    H.xsqueeze(s, 'p', 128, 300)
    t.append(s)
    return t


def whole_kt(full):
    t = [sc(T.kone, 128, 200, 40, 5), sc(T.kone, 256, 8191, 40, 0), sc(T.kone, 128, 8193, 200, 0)]
    for k in (2, 3, 4, 8) + ((9, 12, 17) if full else ()):
        t.append(sc(T.kone, 128, 8192 * (k + 1) - 7, 32, 1))
    t.append(sc(T.kone, 256, 8192 * 9 + 1, 32, 1))
    return t


def whole_dup():
    s = Script()
    D.dinit(s, 1345, 255)
    for n in (0, 5, 166, 20):
        D.feed(s, n // 2)
        D.over(s, n // 4)
        D.duplexing(s, n // 4, 100 + n // 3, 1)
        D.further(s, 3)
    g = Script()
    D.ginit(g, 254)
    for n in (100, 200, 3):
        D.gfeed(g, n)
        D.gfetch(g, n)
    D.gforget(g)
    D.gfetch(g, 40)
    return [s, g]


def whole_deck():
    b = 1600
    t = []
    for k in (0, 1, 3):
        s = Script()
        K.dkey(s, 'kravatte', 130)
        K.dboth(s, k * b + 3, k * b + 13, 0)
        t.append(s)
    s = Script()
    K.dkey(s, 'kravatte', 130)
    K.dboth(s, 5, 100, 0)
    K.dboth(s, 7, 2 * b, K.INIT | K.SHORT)
    t.append(s)
    return t


def main():
    c = Check('C28')
    full = TIER == 'thorough'
    c.bounds = ['every target: ' + ', '.join(ALL),
                'one list of calls of every module, the same on every target, all data symbolic; low-level services replaced by their contracts',
                'whole programs without any replacement (permutation rounds included) for messages of a few blocks per function, up to 17 KT128 chunks in '
                'thorough; on the targets with the 32-bit implementation two SHA-3 instances; whole programs cover the hash functions, KangarooTwelve, '
                'the duplex objects and Kravatte; the Xoodoo-based functions have contract runs only']
    c.assumptions = ['contract runs: low-level services behave as their contracts; the whole-program runs do not assume this',
                     'targets differ by config.h, selected sources and intrinsics; all are judged as compiled for x86-64']
    for t in ALL:
        rng = random.Random(f'{SEED} targets')
        slow = '32' in t
        h = 'ih' if slow else ''
        u = H.hunit(c, t)
        grouped(c, f'{t} hash', u, 'h_hash', hashes(rng), per=16)
        grouped(c, f'{t} KT', unit_mode(c, t, ['KangarooTwelve'], 'kt.c'), 'h_kt', kts(rng), per=6)
        grouped(c, f'{t} duplex', unit_mode(c, t, ['KeccakDuplex', 'KeccakPRG'], 'duplex.c'), 'h_duplex', duplexes(rng), per=9)
        for kind, frag, flag in (('kravatte', 'Kravatte', ''), ('xoofff', 'Xoofff', '-DXOOFFF')):
            grouped(c, f'{t} {kind}', unit_mode(c, t, [frag], 'deck.c', flag), 'h_deck', decks(rng, kind), per=10)
        grouped(c, f'{t} Xoodyak', unit_mode(c, t, ['Xoodyak'], 'yak.c'), 'h_yak', Y.scripts(rng, False)[:12], per=12)

        def whole(name, frags, harness, fn, scripts, extra='', hint=''):
            u = unit_whole(c, t, frags, harness, extra)
            for i, s in enumerate(scripts):
                c.add(f'{t} whole {name} {i}', run_whole, unit=u, fn=fn, scripts=[s], desc=f'{t} whole program', hint=hint)
        whole('hash', H.FRAGS, 'hash.c', 'h_hash', whole_hash(full, slow), hint=h)
        if not slow:
            whole('KT', ['KangarooTwelve'], 'kt.c', 'h_kt', whole_kt(full))
            whole('duplex', ['KeccakDuplex', 'KeccakPRG'], 'duplex.c', 'h_duplex', whole_dup())
            whole('kravatte', ['Kravatte'], 'deck.c', 'h_deck', whole_deck())
    c.run()
