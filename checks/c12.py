"""C12: TurboSHAKE, one-shot and incremental."""
from hashdrv import *


def main():
    c = Check('C12')
    full = TIER == 'thorough'
    rng = random.Random(SEED)
    c.bounds = ['all data symbolic; permutation and low-level services replaced by their contracts (decided by C01-C04)',
                'capacities 256 and 512, and all others offered (0..512, multiples of 8); every domain byte 00..FF; message and output lengths to 3 blocks plus',
                'random splits; error calls']
    c.assumptions = ['low-level services behave as their contracts']
    for t in TARGETS:
        u = hunit(c, t)
        sc = []
        for cap in (256, 512):
            r = 200 - cap // 8
            s = Script()
            for d in range(256):
                turbo(s, cap, rng.choice([0, 5, r - 1]), d, 8)
                if d % 64 == 63:
                    sc.append(s)
                    s = Script()
            lens = range(2 * r + 2) if full or t == 'generic64' else [0, 1, 7, 8, r - 8, r - 1, r, r + 1, 2 * r - 1, 2 * r, 3 * r + 3]
            for i, n in enumerate(lens):
                turbo(s, cap, n, rng.choice([1, 7, 0x1F, 0x7F, 0x80, 0xFF]), rng.choice([0, 1, 32, r - 1, r, r + 1, 3 * r]))
                if i % 16 == 15:
                    sc.append(s)
                    s = Script()
            sc.append(s)
        s = Script()
        for cap in list(range(0, 513, 8)) + [513, 520, 1, 7, 9, 255, 1600, 1024]:
            r = 200 - cap // 8
            turbo(s, cap, rng.choice([0, r - 1, r, r + 1]) if cap <= 512 else 3, 7, rng.choice([3, r + 1]) if cap <= 512 else 3)
        sc.append(s)
        grouped(c, f'{t} one-shot', u, 'h_hash', sc, per=6)
        sc = []
        for k in range(80 if full else 28):
            s = Script()
            sec = rng.choice([128, 256, 0])
            cap = {128: 256, 256: 512}.get(sec) or 8 * rng.randint(1, 64)
            r = 200 - cap // 8
            tinit(s, sec, cap)
            parts = [r] * 2 + [1, r - 1, 2 * r] if k % 4 == 0 else [max(r - 1, 0), 1, 3 * r, 1, r] if k % 4 == 1 else \
                split(rng, rng.randint(0, 4 * r), rng.randint(1, 5))
            for n in parts:
                absorb(s, n, op=21)
            if k % 5 == 0:
                last(s, 0, op=22)
            last(s, rng.choice([1, 7, 0x1F, 0x7F, 0x80, 0xFF]), op=22)
            for n in split(rng, rng.choice([0, r, 2 * r, 3 * r + 1]), rng.randint(1, 5)) + ([r, r, 2 * r] if k % 2 else []):
                squeeze(s, n, op=23)
            absorb(s, 3, op=21)
            last(s, 1, op=22)
            squeeze(s, 5, op=23)
            sc.append(s)
        for cap in (513, 520, 511, 1600):
            s = Script()
            tinit(s, 0, cap)
            sc.append(s)
        grouped(c, f'{t} incremental', u, 'h_hash', sc, per=8)
    c.run()
