"""C15: the sponge-based pseudo-random generator."""
from dupdrv import *


def main():
    c = Check('C15')
    full = TIER == 'thorough'
    rng = random.Random(SEED)
    c.bounds = ['all data symbolic; permutation and low-level services replaced by their contracts (decided by C01-C04)',
                'capacities ' + ('all of 0..1590' if full else '0..20, around 254, 512, 576, 794..810, 1024 and 1570..1590') +
                '; random histories of feed, fetch and forget of up to several blocks; full state compared after forget']
    c.assumptions = ['low-level services behave as their contracts']
    for t in (TARGETS if full else ['reference', 'generic32', 'generic64', 'AVX2', 'AVX512']):
        u = unit_mode(c, t, ['KeccakDuplex', 'KeccakPRG'], 'duplex.c')
        caps = set(range(0, 1591)) if full and t in MAIN else set(range(0, 21)) | set(range(1570, 1591)) | set(range(785, 815)) | {253, 254, 255, 256, 512, 576, 1024}
        sc = []
        for cap in sorted(caps):
            rho = (1600 - cap - 2) // 8
            for k in range(2):
                s = Script()
                ginit(s, cap)
                if k:
                    gfetch(s, 3)
                for _ in range(14):
                    n = rng.choice([0, 1, rho - 1, rho, rho + 1, 2 * rho, rng.randint(0, 3 * rho)])
                    j = rng.randint(0, 9)
                    if j < 4:
                        gfeed(s, n)
                    elif j < 8:
                        gfetch(s, n)
                    elif j == 8:
                        gforget(s)
                        gstate(s)
                    else:
                        gstate(s)
                gforget(s)
                gstate(s)
                gfetch(s, rho + 1)
                sc.append(s)
        for cap in (1591, 1592, 1599, 1600, 1601, 0xFFFFFFFF):
            s = Script()
            ginit(s, cap)
            sc.append(s)
        grouped(c, f'{t} PRG', u, 'h_duplex', sc, per=16)
    c.run()
