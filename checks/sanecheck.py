"""Checks of the session authenticated encryption modes (C18 SANE, C19 SANSE)."""
from deckdrv import *


class Ops:
    def __init__(self, kind, sanse):
        self.kind, self.sanse = kind, sanse
        self.T = 32 if sanse else 16
        self.wrap = ewrap if sanse else awrap
        self.unwrap = eunwrap if sanse else aunwrap

    def init(self, s, kb, nb, slot=0, at=None):
        if self.sanse:
            einit(s, self.kind, kb, slot, at)
        else:
            ainit(s, self.kind, kb, nb, slot, at)


def roundtrip(rng, o, full):
    """What one side wraps the other side unwraps: same plaintext, and both sides stay in the same state."""
    sc = []
    ps = list(pairs(rng, o.kind, o.T, full))
    while ps:
        s = Script()
        kb, nb = rng.choice([0, 7, 128, 130, 256]), rng.choice([0, 3, 64, 128])
        o.init(s, kb, nb)
        o.init(s, kb, nb, slot=1, at=s.ins[0])
        for k in range(rng.randint(1, 4)):
            if not ps:
                break
            p, a = ps.pop(rng.randrange(len(ps)))
            x, y = (0, 1) if rng.random() < .7 else (1, 0)
            _, co, to = o.wrap(s, p, a, slot=x)
            pi, ai = s.ins
            o.unwrap(s, p, a, src=(co, to), slot=y, at=ai, plain=pi)
        sc.append(s)
    return sc


def pairs(rng, kind, T, full):
    b = 1600 if kind == 'kravatte' else 384
    L = [0, 1, 2, 5, 6, 7, 8, 9, 63, 64, b - 8 * T - 1, b - 8 * T, b - 8 * T + 1, b - 10, b - 9, b - 8, b - 7, b - 3, b - 2, b - 1, b, b + 1, 2 * b,
         2 * b + 5, 5 * b - 3, 8 * b, 9 * b + 7, 17 * b + 1]
    for p in L:
        for a in ([0, 1, 6, 7, 8, b - 2, b - 1, b, 3 * b + 3] if full else [0, rng.choice([1, 5, 6, 7]), rng.choice(L)]):
            yield p, a
    for _ in range(200 if full else 12):
        yield rng.randint(0, 3 * b), rng.randint(0, 3 * b)


def definition(rng, o, full):
    """Wrap and unwrap separately against the definition; tags of unwrap are symbolic or what the definition expects."""
    b = 1600 if o.kind == 'kravatte' else 384
    sc = []
    ps = list(pairs(rng, o.kind, o.T, full))
    for p, a in ps:
        s = Script()
        o.init(s, rng.choice([0, 7, 128, 130, 256]), rng.choice([0, 3, 64, 128, b, b + 5]))
        for _ in range(rng.randint(0, 2)):
            o.wrap(s, rng.choice([0, 0, 3, 8, 7, rng.randint(0, b)]), rng.choice([0, 0, 6, 7, 16, rng.randint(0, b)]))
        o.wrap(s, p, a)
        o.wrap(s, 9, 14)
        sc.append(s)
    for kb in (b - 1, b, b + 1):
        s = Script()
        o.init(s, kb, 5)
        if kb < b:
            o.wrap(s, 5, 5)
        sc.append(s)
    return sc


def forged(rng, o, full):
    """Unwrap with arbitrary ciphertext and tag: the tag comparison splits the paths."""
    b = 1600 if o.kind == 'kravatte' else 384
    sc = []
    for p, a in [(0, 0), (1, 0), (7, 7), (8, 0), (13, 6), (0, 5), (64, 8), (b - 8 * o.T - 1, 2), (b, 1), (b + 3, 0), (2 * b - 1, b)]:
        s = Script()
        o.init(s, 128, 64)
        if rng.random() < .5:
            o.wrap(s, 11, 7)
        o.unwrap(s, p, a)
        o.wrap(s, 8, 8)
        sc.append(s)
    return sc


def run(prop, sanse):
    c = Check(prop)
    full = TIER == 'thorough'
    c.bounds = ['all keys, nonces and data symbolic, unused bits of partial bytes included; permutations and low-level services replaced by '
                'their contracts (decided by C01-C07)',
                'plaintext and metadata of 0..17 blocks with bit-granular lengths around byte, tag and block boundaries, sessions of up to four messages; '
                'round trips of sessions of up to four messages between two instances',
                'forged messages: ciphertext and tag symbolic, the comparison result splits the execution']
    c.assumptions = ['low-level services behave as their contracts']
    for kind, frag, flag in (('kravatte', 'Kravatte', ''), ('xoofff', 'Xoofff', '-DXOOFFF')):
        o = Ops(kind, sanse)
        for t in (TARGETS if full else ['reference', 'generic64', 'AVX2', 'AVX512']):
            rng = random.Random(f'{SEED} {kind}')
            u = unit_mode(c, t, [frag], 'deck.c', flag)
            grouped(c, f'{t} {kind} wrap', u, 'h_deck', definition(rng, o, full), per=8)
            grouped(c, f'{t} {kind} round trip', u, 'h_deck', roundtrip(rng, o, full), per=6)
            if t in MAIN or full:
                grouped(c, f'{t} {kind} forgery', u, 'h_deck', forged(rng, o, full), per=4, fork=True, maxpaths=400)
    c.run()
