"""C09: SHA-3 and SHAKE, one-shot and incremental, bit granular."""
from hashdrv import *

KINDS = [128, 257, 224, 256, 384, 512]


def main():
    c = Check('C09')
    full = TIER == 'thorough'
    rng = random.Random(SEED)
    c.bounds = ['all data symbolic; permutation and low-level services replaced by their contracts (decided by C01-C04)',
                'one-shot: every message length 0..2 blocks+1 for one target per function, boundary lengths for the others; SHAKE outputs to 3 blocks',
                'incremental: messages to several blocks in 1..5 updates, every bit remainder 1..7 at every boundary class; arbitrary rate, suffix and hash length']
    c.assumptions = ['low-level services behave as their contracts', 'only the last update has a bit length that is not a multiple of 8']
    for t in TARGETS:
        u = hunit(c, t)
        sc = []
        for kind in KINDS:
            rate, ob, _ = PAR[kind]
            r = rate // 8
            if full or t == 'generic64':
                lens = range(2 * r + 2)
            else:
                lens = [0, 1, 7, 8, r - 9, r - 8, r - 1, r, r + 1, 2 * r - 1, 2 * r, 3 * r + 4]
            lens = list(lens)
            for i in range(0, len(lens), 12):
                s = Script()
                for n in lens[i:i + 12]:
                    simple(s, kind, n, rng.choice([0, 1, 31, 32, r - 1, r, r + 1, 2 * r, 3 * r + 2]))
                sc.append(s)
        grouped(c, f'{t} one-shot', u, 'h_hash', sc, per=6)
        sc = []
        for kind in KINDS + [0]:
            for b in range(8):
                for k in range(4 if full else 2):
                    s = Script()
                    if kind:
                        rate, ob, _ = PAR[kind]
                        hinit(s, kind)
                    else:
                        rate = rng.choice([8, 64, 576, 1088, 1144, 1344, 1600])
                        ob = rng.choice([0, 8, 160, 1024])
                        hinit(s, 0, rate, 1600 - rate, ob, rng.choice([1, 2, 3, 6, 7, 0x1F, 0x3F, 0x7F, 0x80, 0xE5]))
                    r = rate // 8
                    tot = rng.choice([0, r - 1, r - 1, r, r + 1, 2 * r - 1, rng.randint(0, 3 * r)])
                    for n in split(rng, tot, rng.randint(1, 4)):
                        hupdate(s, 8 * n)
                    if b:
                        hupdate(s, 8 * rng.choice([0, 0, 1, r]) + b)
                    hfinal(s, ob // 8)
                    for n in split(rng, rng.randint(0, 3 * r), rng.randint(1, 4)):
                        hsqueeze(s, 8 * n)
                    hsqueeze(s, 8 * 3 + (b or 3))
                    hsqueeze(s, 16)
                    hupdate(s, 8)
                    sc.append(s)
        # every bit remainder with the message ending just before the end of a block
        for kind in KINDS:
            r = PAR[kind][0] // 8
            for b in range(1, 8):
                s = Script()
                for n in (0, r - 1, r, 2 * r - 1):
                    hinit(s, kind)
                    hupdate(s, 8 * n + b)
                    hfinal(s, PAR[kind][1] // 8)
                    hsqueeze(s, 64)
                sc.append(s)
        for rate, cap, d in [(1088, 513, 6), (1087, 513, 6), (0, 1600, 6), (1088, 512, 0), (1608, -8 & 0xFFFFFFFF, 6)]:
            s = Script()
            hinit(s, 0, rate, cap, 256, d)
            sc.append(s)
        grouped(c, f'{t} incremental', u, 'h_hash', sc, per=16)
    c.run()
