"""C10: cSHAKE, KMAC and TupleHash."""
from hashdrv import *


def main():
    c = Check('C10')
    full = TIER == 'thorough'
    rng = random.Random(SEED)
    c.bounds = ['all data symbolic; permutation and low-level services replaced by their contracts (decided by C01-C04)',
                'names, customizations, keys 0..about 2 blocks in bits, messages to several blocks with any split, up to 9 tuple elements in up to 3 updates',
                'outputs of 1 bit to 3 blocks, fixed and XOF; integer encodings for lengths whose encodings take 1 to 3 bytes here']
    c.assumptions = ['low-level services behave as their contracts']
    ln = lambda r: rng.choice([0, 0, 1, 3, 8, 16, 31, 32 * 8, 8 * r - 40, 8 * r - 8, 8 * r, 8 * r + 8, rng.randint(0, 600), rng.randint(1, 16 * r)])
    by = lambda x: x // 8 * 8
    out = lambda r: rng.choice([1, 7, 8, 12, 255, 256, 512, 8 * r - 1, 8 * r, 8 * r + 1, 8 * r + 8, 24 * r - 4, rng.randint(1, 24 * r)])
    for t in (TARGETS if full else ['reference', 'generic32', 'generic64', 'SSSE3', 'AVX2', 'AVX512']):
        u = hunit(c, t)
        K = 3 if full else 1
        sc = []
        for sec in (128, 256):
            r = (1600 - 2 * sec) // 8
            for k in range(16 * K):          # one-shots
                s = Script()
                for _ in range(3):
                    cone(s, sec, ln(r), out(r), by(ln(r)), ln(r))
                    kone(s, sec, by(ln(r)), out(r), ln(r), ln(r))
                    tone(s, sec, [by(ln(r)) for _ in range(rng.randint(0, 3))], out(r))
                sc.append(s)
            s = Script()
            # padding boundaries of bytepad: exact fit, one less, one more
            for d in (-2, -1, 0, 1, 2):
                kone(s, sec, 8, 256, 8 * (r - 4 + d), 0)
                kone(s, sec, 8, 256, 8 * (r - 5 + d), 0)
                cone(s, sec, 8, 256, 0, 8 * (r - 6 + d))
                cone(s, sec, 8, 256, 8 * (r - 5 + d), 3)
                cone(s, sec, 8, 256, 0, 8 * (2 * r - 6 + d) - 5)
            cone(s, sec, 8, 0, 8, 8)
            cone(s, sec, 8, 64, 7, 8)
            kone(s, sec, 12, 64, 8, 8)
            kone(s, sec, 8, 0, 8, 8)
            tone(s, sec, [8], 0)
            tone(s, sec, [8, 9], 64)
            cone(s, sec, 64, 256, 0, 0)
            cone(s, sec, 61, 256, 0, 0)
            cone(s, sec, 8 * r - 1, 256, 0, 0)
            cone(s, sec, 8 * r - 3, 256, 0, 5)
            cone(s, sec, 8 * r - 3, 256, 0, 0)
            sc.append(s)
            s = Script()
            # two- and three-byte integer encodings
            cone(s, sec, 0, 64, 8 * 31, 8 * 32)
            cone(s, sec, 0, 64, 8 * 32, 8 * 8192)
            kone(s, sec, 8, 65536 + 8, 8 * 8191, 8 * 33)
            tone(s, sec, [8 * 31, 8 * 32, 8 * 8192], 65536)
            sc.append(s)
            for b in range(8):               # every bit remainder of message and output
                s = Script()
                for q in (0, r - 1, r):
                    cone(s, sec, 8 * q + b, 8 * rng.randint(1, r) + b, 8, 5)
                    if 8 * q + b:
                        cone(s, sec, 8 * q + b, 64 + b, 0, 0)
                sc.append(s)
            for k in range(12 * K):          # incremental
                s = Script()
                for kind in 'ckt':
                    L = rng.choice([0, 0, out(r)])
                    if kind == 'c':
                        cinit(s, sec, L, by(ln(r)), ln(r))
                    elif kind == 'k':
                        kinit(s, sec, L, ln(r), ln(r))
                    else:
                        tuinit(s, sec, L, ln(r))
                    for n in split(rng, rng.randint(0, 3 * r), rng.randint(1, 4)):
                        if kind == 't':
                            tupdate(s, sec, [8 * x for x in split(rng, n, rng.randint(1, 3))])
                        else:
                            xupdate(s, kind, sec, 8 * n)
                    if k % 4 == 1 and kind == 'k':
                        xupdate(s, kind, sec, 8 * 2 + 5)
                    if k % 3 == 0 and kind == 'c':
                        xupdate(s, kind, sec, 8 * rng.choice([0, 1, r]) + rng.randint(1, 7))
                        xupdate(s, kind, sec, 16)
                        xupdate(s, kind, sec, 0)
                    if k % 5 == 0:
                        xsqueeze(s, kind, sec, 16, True)
                    xfinal(s, kind, sec, L)
                    if L:
                        xsqueeze(s, kind, sec, 16, True)
                    else:
                        for n in split(rng, rng.randint(0, 3 * r), rng.randint(1, 4)):
                            xsqueeze(s, kind, sec, 8 * n)
                        xsqueeze(s, kind, sec, 8 * rng.randint(0, r) + rng.randint(1, 7))
                        xsqueeze(s, kind, sec, 16, True)
                    if kind != 't':
                        xupdate(s, kind, sec, 8)
                    else:
                        tupdate(s, sec, [8])
                    xfinal(s, kind, sec, L, True)
                sc.append(s)
            s = Script()
            cinit(s, sec, 64, 9, 8)
            sc.append(s)
        grouped(c, f'{t} SP800-185', u, 'h_hash', sc, per=4)
    # bits of the customization's last byte beyond its length (known finding; everywhere else they are zero)
    u = hunit(c, 'generic64')
    for sec in (128, 256):
        for k in 'ckt':
            s = Script()
            if k == 'c':
                cinit(s, sec, 256, 8, 21, raw=1)
            elif k == 'k':
                kinit(s, sec, 256, 128, 21, raw=1)
            else:
                tuinit(s, sec, 256, 21, raw=1)
            xfinal(s, k, sec, 256)
            c.add(f'dirty customization {k}{sec}', run_many, unit=u, fn='h_hash', scripts=[s], desc='dirty customization')
    c.run()
