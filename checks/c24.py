"""C24: the standalone compact C implementations against FIPS 202."""
import random
import modes
from checklib import *

DIR = build.REPO + '/Standalone/CompactFIPS202/C/'
HASHES = {224: (1152, 6), 256: (1088, 6), 384: (832, 6), 512: (576, 6)}
XOFS = {128: 1344, 256: 1088}


def keccak(unit, cases, fips=False):
    tot = {'obligations': 0, 'paths': 0, 'violation': None}
    for fn, head, rate, n, delim, m in cases:
        spec = lambda sp, rate=rate, delim=delim, m=m: {'out': modes.sponge(Ctx(sp), rate // 8, sp['in'], delim, m)}
        args = {'r': [rate, 1600 - rate, In('in', n), n, delim, Out('out', m), m], 'f': [In('in', n), n, Out('out', m)],
                'x': [In('in', n), n, Out('out', m), m], 'h': [Out('out', m), In('in', n), n], 's': [Out('out', m), m, In('in', n), n]}[head]
        q = run_case(unit, fn, args, spec, desc=f'{unit["name"]}: {fn} rate {rate} message {n} suffix {delim:#x} output {m}')
        tot['obligations'] += q['obligations']
        tot['paths'] += q['paths']
        if q['violation']:
            tot['violation'] = q['violation']
            break
    tot['sample'] = f'{unit["name"]} {cases[0]}'
    return tot


class Ctx:
    def __init__(self, sp):
        self.sp = sp

    def keccak(self, A, n):
        return self.sp.keccak(list(A), n)


def lengths(R, rng, full):
    return sorted({0, 1, R - 2, R - 1, R, R + 1, 2 * R - 1, 2 * R, rng.randint(0, R), rng.randint(R, 3 * R)} | ({7, 8, 9, R // 2, 2 * R + 1, 3 * R} if full else set()))


def main():
    c = Check('C24')
    full = TIER == 'thorough'
    c.bounds = ['messages of 0 to 3 blocks around every block boundary, outputs of 0 to 3 blocks, all data symbolic',
                'generic function: the six FIPS 202 rates, 8, 1600 and further multiples of 8, suffixes from 1 to 255; ' + ('all' if full else 'a sample') +
                ' of the suffixes at the last byte of a block', 'both settings of LITTLE_ENDIAN of Keccak-readable-and-compact.c',
                'Keccak-f[1600] is executed as well, nothing is replaced']
    c.assumptions = ['compiled for a little-endian machine']
    for name, f, flags in (('readable', 'Keccak-readable-and-compact.c', ''), ('readable-le', 'Keccak-readable-and-compact.c', '-DLITTLE_ENDIAN'),
                           ('more-compact', 'Keccak-more-compact.c', '')):
        rng = random.Random(f'{SEED} standalone')
        u = c.unit(name, [], [DIR + f], hflags=flags)
        for rate in [1344, 1088, 1152, 832, 576, 8, 16, 64, 1600, 1592] + [8 * rng.randint(3, 198) for _ in range(20 if full else 3)]:
            R = rate // 8
            cs = []
            for n in lengths(R, rng, full):
                if n >= 0:
                    cs.append(('Keccak', 'r', rate, n, rng.choice([1, 6, 31, rng.randint(1, 255)]), rng.choice([0, 1, 32, R - 1, R, R + 1, 2 * R + 3])))
            for d in (range(1, 256) if full and rate in (1088, 64) else [0x80, 0x81, 0xFF, 0x7F]):
                cs.append(('Keccak', 'r', rate, R - 1, d, 9))
            for m in (R, R + 1, 3 * R):
                cs.append(('Keccak', 'r', rate, 5, 31, m))
            for i in range(0, len(cs), 6):
                c.add(f'{name} rate {rate} {i // 6}', keccak, unit=u, cases=cs[i:i + 6])
        cs = []
        for b, (r, d) in HASHES.items():
            cs += [(f'FIPS202_SHA3_{b}', 'f', r, n, d, b // 8) for n in lengths(r // 8, rng, full)]
        for b, r in XOFS.items():
            cs += [(f'FIPS202_SHAKE{b}', 'x', r, n, 31, rng.randint(0, 400)) for n in lengths(r // 8, rng, full)]
        for i in range(0, len(cs), 8):
            c.add(f'{name} named functions {i // 8}', keccak, unit=u, cases=cs[i:i + 8])
    rng = random.Random(f'{SEED} tweetable')
    u = c.unit('tweetable', [], [DIR + 'TweetableFIPS202.c'], hflags='-std=gnu99')
    cs = []
    for b, (r, d) in HASHES.items():
        cs += [(f'crypto_hash_sha3{b}', 'h', r, n, d, b // 8) for n in lengths(r // 8, rng, full)]
    for b, r in XOFS.items():
        cs += [(f'crypto_hash_shake{b}', 's', r, n, 31, m) for n in lengths(r // 8, rng, full) for m in (0, rng.randint(1, 500))]
        cs += [(f'crypto_hash_shake{b}', 's', r, 3, 31, m) for m in (1, r // 8 - 1, r // 8, r // 8 + 1, 3 * r // 8)]
    for i in range(0, len(cs), 8):
        c.add(f'tweetable {i // 8}', keccak, unit=u, cases=cs[i:i + 8])
    u = c.unit('tweetable-stub', [], [DIR + 'TweetableFIPS202.c', DIR + 'TweetableFIPS202-stub.c'], hflags='-std=gnu99 -DDEBUG=1')
    cs = [('Keccak', 'r', r, n, d, b // 8) for b, (r, d) in HASHES.items() for n in (0, r // 8)]
    cs += [('Keccak', 'r', r, 20, 31, 200) for r in XOFS.values()]
    c.add('tweetable through Keccak()', keccak, unit=u, cases=cs)
    c.run()
