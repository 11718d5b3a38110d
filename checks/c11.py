"""C11: ParallelHash for every degree of parallelism."""
from hashdrv import *


def main():
    c = Check('C11')
    full = TIER == 'thorough'
    rng = random.Random(SEED)
    c.bounds = ['all data symbolic; permutation and low-level services replaced by their contracts (decided by C01-C04)',
                'block sizes 8..1024 (thorough 8192) and huge ones, messages of 0..19 blocks with and without a partial block, any split, outputs as in C10']
    c.assumptions = ['low-level services behave as their contracts']
    out = lambda r: rng.choice([1, 7, 8, 12, 256, 512, 8 * r, 8 * r + 1, rng.randint(1, 16 * r)])
    for t in (TARGETS if full else ['reference', 'generic32', 'generic64', 'SSSE3', 'AVX2', 'AVX512']):
        u = hunit(c, t)
        sc = []
        for sec in (128, 256):
            r = (1600 - 2 * sec) // 8
            for Bl in (8, 16, 64, 128, 256, 512, 1024) + ((2048, 8192) if full else ()):
                s = Script()
                for nb in (0, 1, 2, 3, 4, 6, 8, 9, 15, 16) if Bl <= 512 else (1, 7, 15):
                    m = nb * Bl + rng.choice([0, 0, 1, Bl - 1, Bl // 2])
                    pone(s, sec, 8 * m, out(r), Bl, rng.choice([0, 8, 24, 13, 8 * r]))
                sc.append(s)
                for k in range(3 if full else 2):
                    s = Script()
                    L = rng.choice([0, 0, out(r)])
                    pinit(s, sec, L, Bl, rng.choice([0, 8, 21, 8 * r - 40]))
                    parts = split(rng, rng.randint(0, 19 * Bl), rng.randint(1, 5)) if k else [Bl // 2, Bl // 2, 8 * Bl, 1, Bl - 1, 5 * Bl + 3]
                    for n in parts:
                        xupdate(s, 'p', sec, 8 * n)
                    xupdate(s, 'p', sec, 8 + 3)
                    if k == 0:
                        xsqueeze(s, 'p', sec, 16, True)
                    xfinal(s, 'p', sec, L)
                    if L:
                        xsqueeze(s, 'p', sec, 16, True)
                    else:
                        for n in split(rng, rng.randint(0, 3 * r), rng.randint(1, 4)):
                            xsqueeze(s, 'p', sec, 8 * n)
                        xsqueeze(s, 'p', sec, 8 * rng.randint(0, r) + rng.randint(1, 7))
                        xsqueeze(s, 'p', sec, 16, True)
                    xupdate(s, 'p', sec, 8)
                    xfinal(s, 'p', sec, L, True)
                    sc.append(s)
            s = Script()
            pone(s, sec, 8 * 256 * 8, 256, 8, 0)          # 256 blocks: two-byte block count
            sc.append(s)
            for sh in (13, 16, 24, 31, 32, 40, 60, 61, 62, 63):
                s = Script()
                pinit(s, sec, 0, 1 << sh, 8)
                for n in (0, 5, 3 * r, 1):
                    xupdate(s, 'p', sec, 8 * n)
                xfinal(s, 'p', sec, 0)
                xsqueeze(s, 'p', sec, 256)
                sc.append(s)
            for Bl in (0, 1, 4, 7, 9, 12, 24, 1000, (1 << 32) + 1, 3 << 40):
                s = Script()
                pinit(s, sec, 256, Bl, 0)
                sc.append(s)
        grouped(c, f'{t} ParallelHash', u, 'h_hash', sc, per=3)
    c.run()
