"""C14: the duplex object."""
from dupdrv import *


def main():
    c = Check('C14')
    full = TIER == 'thorough'
    rng = random.Random(SEED)
    c.bounds = ['all data symbolic; permutation and low-level services replaced by their contracts (decided by C01-C04)',
                'rates ' + ('all of 3..1600' if full else '3..40, all residues around 128, 576, 1024, 1344 and 1560..1600') + '; random call histories of '
                'about 30 calls per rate including refused ones; every trailing-bit delimiter length at the limits']
    c.assumptions = ['low-level services behave as their contracts']
    for t in (TARGETS if full else ['reference', 'generic32', 'generic64', 'AVX2', 'AVX512']):
        u = unit_mode(c, t, ['KeccakDuplex', 'KeccakPRG'], 'duplex.c')
        rates = set(range(3, 1601)) if full and t in MAIN else set(range(3, 41)) | set(range(1560, 1601))
        for b in (128, 576, 1024, 1344):
            rates |= set(range(b - 9, b + 10))
        sc = []
        for rate in sorted(rates):
            R = BY(rate)
            rho = (rate - 2) // 8
            rem = (rate - 2) % 8
            s = Script()
            dinit(s, rate, 1600 - rate)
            further(s, 0)
            further(s, 1)
            # the largest accepted and smallest refused inputs
            for q in {0, 1, rho // 2, rho}:
                for bits in range(0, 8):
                    for _ in range(1):
                        feed(s, q)
                        n = max(0, rho - s.sh.q)
                        duplexing(s, n, rng.choice([0, R, rng.randint(0, R), R + 1]), (1 << bits) | rng.randint(0, (1 << bits) - 1))
                        duplexing(s, 0, rng.choice([0, R, rng.randint(0, R)]), 1)
            feed(s, rho + 1)
            feed(s, 0xFFFFFF)if 0 else None
            for _ in range(24):
                n = rng.choice([0, 1, rng.randint(0, R), rng.randint(0, max(1, rho // 3))])
                k = rng.randint(0, 9)
                if k <= 2:
                    duplexing(s, min(n, R), rng.choice([0, R, R - 1, rng.randint(0, R)]), rng.choice([0, 1, 1, 2, 3, 6, 0x1F, 0x80, 0xFF]))
                elif k == 3:
                    feed(s, n)
                elif k == 4:
                    feed0(s, n)
                elif k == 5:
                    over(s, n)
                elif k == 6:
                    over0(s, n)
                elif k == 7:
                    further(s, rng.choice([n, R - s.sh.o, max(0, R - s.sh.o - 1), 0]))
                else:
                    furtheradd(s, rng.choice([n, R - s.sh.o, max(0, R - s.sh.o - 1), 0]), k == 9)
            duplexing(s, 0, R, 1)
            further(s, 0)
            furtheradd(s, 0)
            sc.append(s)
        for rate, cap in [(0, 1600), (1, 1599), (2, 1598), (1601, -1), (1600, 1), (1344, 255), (576, 1025)]:
            s = Script()
            dinit(s, rate, cap)
            sc.append(s)
        grouped(c, f'{t} duplex', u, 'h_duplex', sc, per=12)
    c.run()
