"""C08: Keccak sponge, one-shot and incremental."""
from hashdrv import *


def main():
    c = Check('C08')
    full = TIER == 'thorough'
    rng = random.Random(SEED)
    c.bounds = ['all data symbolic; permutation and low-level services replaced by their contracts (decided by C01-C04)',
                'one-shot: every rate 8..1600 step 8, lengths around multiples of the rate up to 3 blocks, all suffix classes, outputs to 3 blocks',
                'incremental: random splits of messages and outputs up to several blocks; symbolic suffix byte; error calls']
    c.assumptions = ['low-level services behave as their contracts']
    for t in TARGETS:
        u = hunit(c, t)
        # one-shot
        sc = []
        rates = range(8, 1601, 8) if full or t in ('generic64', 'AVX2') else [8, 64, 72, 128, 576, 832, 1024, 1088, 1152, 1336, 1344, 1592, 1600]
        for rate in rates:
            r = rate // 8
            s = Script()
            for n, o in [(0, r), (1, r + 1), (r - 1, 2 * r), (r, 1), (r + 1, 0), (2 * r - 1, 2 * r + 1), (2 * r, max(r - 1, 0)), (3 * r + r // 2, 3 * r - 1)]:
                oneshot(s, rate, 1600 - rate, n, rng.choice([1, 2, 3, 6, 0x1F, 0x7F, 0x80, 0x81, 0xC3, 0xFF]), o)
            for d in (0x7F, 0x80, 0xFF, 0x01):
                oneshot(s, rate, 1600 - rate, r - 1, d, 9)
            sc.append(s)
        s = Script()
        for rate, cap in [(0, 1600), (1, 1599), (7, 1593), (12, 1588), (1344, 257), (1608, -8 & 0xFFFFFFFF), (1600, 8), (8, 0), (1599, 1)]:
            oneshot(s, rate, cap, 3, 6, 5)
        oneshot(s, 1088, 512, 3, 0, 5)
        sc.append(s)
        grouped(c, f'{t} one-shot', u, 'h_hash', sc, per=20)
        # incremental
        sc = []
        for k in range(60 if full else 24):
            s = Script()
            rate = rng.choice([8, 16, 64, 72, 136, 576, 832, 1088, 1152, 1344, 1344, 1592, 1600])
            r = rate // 8
            init(s, rate, 1600 - rate)
            tot = rng.choice([0, r - 1, r, r + 1, 2 * r - 1, 2 * r, 3 * r + 5, rng.randint(0, 4 * r)])
            if k % 4 == 0:
                parts = [r] * 2 + [1, r - 1, 2 * r]
            elif k % 4 == 1:
                parts = [max(r - 1, 0), 1, 3 * r, 1, r]
            else:
                parts = split(rng, tot, rng.randint(1, 5))
            for n in parts:
                absorb(s, n)
            if k % 5 == 0:
                last(s, 0)
            if k % 6:
                last(s, rng.choice([1, 6, 0x1F, 0x80, 0xFF, 0x7F, 0x2B]))
            for n in split(rng, rng.choice([0, r, 2 * r, 3 * r, 3 * r + 1, rng.randint(0, 4 * r)]), rng.randint(1, 5)) + ([r, r, 2 * r] if k % 2 else []):
                squeeze(s, n)
            absorb(s, 3)
            last(s, 1)
            squeeze(s, 5)
            sc.append(s)
        for rate, cap in [(0, 1600), (1, 1599), (7, 1593), (1344, 257), (1608, -8 & 0xFFFFFFFF), (1599, 1)]:
            s = Script()
            init(s, rate, cap)
            sc.append(s)
        grouped(c, f'{t} incremental', u, 'h_hash', sc, per=6)
        # symbolic suffix byte
        sc = []
        for rate in (8, 1088, 1344, 1600):
            for n in (0, rate // 8 - 1, rate // 8, 2 * (rate // 8) - 1):
                s = Script()
                init(s, rate, 1600 - rate)
                absorb(s, n)
                last_sym(s)
                sc.append(s)
        grouped(c, f'{t} symbolic suffix', u, 'h_hash', sc, per=8, fork=True)
    c.run()


if __name__ == '__main__':
    main()
