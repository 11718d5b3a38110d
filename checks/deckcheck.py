"""Checks of the deck functions themselves (C16, C17)."""
from deckdrv import *


def scripts(rng, kind, full):
    b = 1600 if kind == 'kravatte' else 384
    sc = []
    keys = [0, 1, 7, 8, 9, 127, 128, 191, b - 9, b - 8, b - 7, b - 2, b - 1]
    for kb in (range(0, b) if full else keys):
        s = Script()
        dkey(s, kind, kb)
        dboth(s, 13, 100, 0)
        dboth(s, 8, 8, INIT)
        sc.append(s)
    for kb in (b, b + 1, 2 * b):
        s = Script()
        dkey(s, kind, kb)
        sc.append(s)
    # every message length around block boundaries, and every residue
    lens = set(range(0, 40)) | {b * k + d for k in (1, 2, 3, 4, 5, 8, 9, 16, 17) for d in range(-9, 10)}
    lens |= {b * k + d for k in (7, 15, 31, 32, 33, 40) for d in (-1, 0, 1, 8)}
    if full:
        lens |= set(range(0, 6 * b))
    for n in sorted(lens):
        s = Script()
        dkey(s, kind, 128)
        dboth(s, n, rng.choice([1, 8, 130]), rng.choice([0, INIT, SHORT]))
        sc.append(s)
    # output lengths
    for n in sorted(lens):
        s = Script()
        dkey(s, kind, 200)
        dcompress(s, rng.choice([0, 5, 64]), LAST)
        dexpand(s, n, LAST | rng.choice([0, SHORT]))
        dexpand(s, 8, 0)
        sc.append(s)
    # histories
    for _ in range(300 if full else 60):
        s = Script()
        dkey(s, kind, rng.choice([1, 77, 128, 256, b - 1]))
        if rng.random() < .15:
            dexpand(s, 8 * rng.randint(0, 30), rng.choice([0, LAST, SHORT]))
        for _ in range(rng.randint(2, 5)):
            for n in split(rng, rng.randint(0, 12 * b // 8), rng.randint(1, 5)):
                dcompress(s, 8 * n, INIT if rng.random() < .2 else 0)
                if rng.random() < .2:
                    dexpand(s, 8, 0)        # refused while input is queued
                if rng.random() < .1:
                    dcompress(s, 8 * n + 3, 0)  # refused: incomplete byte before the last part
            dcompress(s, rng.choice([0, 0, 3, 8 * rng.randint(0, 3 * b // 8), rng.randint(0, 10 * b)]), LAST | rng.choice([0] * 6 + [INIT]))
            if rng.random() < .8:
                f = rng.choice([0, 0, SHORT])
                for n in split(rng, rng.randint(0, 14 * b // 8), rng.randint(1, 5)):
                    dexpand(s, 8 * n, f)
                    if rng.random() < .1:
                        dexpand(s, 8 * n + 5, f)
                if rng.random() < .6:
                    dexpand(s, rng.choice([0, 1, 8, rng.randint(0, 3 * b)]), f | LAST)
                    if rng.random() < .5:
                        dexpand(s, 8, f)
        sc.append(s)
    # a restart in the middle of a string drops what is queued and everything compressed
    for q in (1, 8, b // 8 - 1, b // 8, b // 8 + 5):
        for f in (0, LAST):
            s = Script()
            dkey(s, kind, 128)
            dcompress(s, 40, LAST)
            dcompress(s, 8 * q, 0)
            dcompress(s, rng.choice([16, 8 * (b // 8 - 1)]), INIT | f)
            if not f:
                dcompress(s, 9, LAST)
            dexpand(s, 64, 0)
            dcompress(s, 8 * q, 0)
            dboth(s, 24, 30, INIT)
            sc.append(s)
    # queues filled exactly
    n = b // 8
    for parts in ([n - 1, 1], [1, n - 1], [n, n], [5, n - 5, n], [5, n - 5 + 3 * n], [1, 20 * n - 1], [7, 17 * n], [n - 1, 0, 1, 0]):
        for last in (0, 3, 8, b, b - 8 * 7, b + 4):
            s = Script()
            dkey(s, kind, 128)
            for k in parts:
                dcompress(s, 8 * k, 0)
            dcompress(s, last, LAST)
            for k in parts:
                dexpand(s, 8 * k, 0)
            dexpand(s, last, LAST)
            sc.append(s)
    return sc


def run(prop, kind, frags, hflags):
    c = Check(prop)
    full = TIER == 'thorough'
    b = 1600 if kind == 'kravatte' else 384
    c.bounds = ['all keys and data symbolic; permutation and low-level services replaced by their contracts (decided by C01-C07)',
                f'key lengths {"0.." + str(b + 1) if full else "at byte and block boundaries"} bits; input and output strings of up to 40 blocks, all bit lengths '
                'within 9 bits of 1..5, 8, 9, 16, 17 blocks; random histories of up to five strings with random splittings and refused calls']
    c.assumptions = ['low-level services behave as their contracts']
    rng = random.Random(SEED)
    for t in (TARGETS if full else ['reference', 'generic32', 'generic64', 'SSSE3', 'AVX2', 'AVX512']):
        u = unit_mode(c, t, frags, 'deck.c', hflags)
        grouped(c, f'{t} deck', u, 'h_deck', scripts(rng, kind, full), per=16)
    c.run()
