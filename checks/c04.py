"""C04: bulk Keccak functions (FastLoop absorption, KangarooTwelve leaves, Kravatte compression and expansion)."""
import random
from lowlib import *


def loops_single(unit, nm, op, cnts, hint):
    def tail(n):
        return n * 8 * 2 + (0, 1, 7, 8, n * 8 - 1)[n % 5]
    ops, ni, no = [(0,), (1, 0, 200)], 200, 200
    for c in cnts:
        n = tail(c)
        ops += [(op, c, n), (21, -n % 8)]
        ni += n + -n % 8
        no += 8
    for n in (cnts[0] * 8, cnts[0] * 8 - 1, 3 * cnts[0] * 8):
        if n >= cnts[0] * 8:
            ops += [(op, cnts[0], n), (21, -n % 8)]
            ni += n + -n % 8
            no += 8
    return wrap(script_case(unit, ops + [(5, 0, 200)], ni, no, hint, f'{nm} FastLoop {op} {cnts}'), f'{nm}: FastLoop lane counts {cnts}')


def wrap(q, s):
    q['sample'] = s
    return q


def loops_par(unit, nm, N, op, cases):
    ops, ni, no = [(0,), (20, 0, 200)], 200 * N, 0
    for c, lop, los, n in cases:
        ops += [(op, c, lop, n), (0, los), (21, -n % 8)]
        ni += n + -n % 8
        no += 8
    ops += [(19, 0, 200)]
    return wrap(script_case(unit, [o for o in ops], ni, no + 200 * N, '', f'{nm} FastLoop {op} {cases}'), f'{nm}: FastLoop {cases}')


def par_cases(N, k, rng):
    out = []
    for c in (17, 21) if k == 0 else (1, 25) if k == 1 else [rng.randrange(1, 26) for _ in range(2)]:
        for lop, los in ((c, c * N), (c * 2, c), (1024 if k == 0 and N < 8 else 64, c)) if k < 2 else ((rng.randrange(c, 70), rng.randrange(1, c * N)),
                                                                                     (rng.randrange(1, 2 * c), rng.randrange(1, c + 1))):
            unit = (lop * (N - 1) + c) * 8
            out.append((c, lop, los, unit + los * 8 * rng.choice((0, 1, 2)) + rng.choice((0, 1, 7))))
    return out


def kra(unit, nm, fn, N, n):
    c = fn == 'h_kcompress'
    args = [InOut('x', 200), InOut('k', 200), In('in', n), n, Out('rv', 8)] if c else \
        [InOut('y', 200), In('k', 200), Out('out', n // (200 * N) * 200 * N), n, Out('rv', 8)]
    return wrap(run_case(unit, fn, args, contract_spec(unit, fn, args, ''), desc=f'{nm} {fn} {n} bytes'), f'{nm}: {fn} of {n} bytes')


def leaves(unit, nm, fn, cv):
    args = [In('in', 65536), Out('out', 8 * cv)]
    return wrap(run_case(unit, fn, args, contract_spec(unit, fn, args, ''), desc=f'{nm} {fn}'), f'{nm}: {fn} on 8 leaves of 8192 bytes')


def main():
    c = Check('C04')
    full = TIER == 'thorough'
    c.bounds = ['single FastLoop: every lane count 1..25, one to three blocks; parallel FastLoop: lane counts 1, 17, 21, 25 and random '
                'ones, several parallel and serial offsets, up to three iterations; Kravatte: one to three full groups with and '
                'without a remainder; KangarooTwelve leaves: whole 8192-byte leaves; all states and data symbolic']
    c.assumptions = ['portable C is judged as compiled by clang-18 -O1 to IR, intrinsics by their LLVM IR meaning']
    for f in K_SINGLE:
        if f.startswith('K1600'):
            u = unit_single(c, f)
            for op, mac in ((11, 'KeccakF1600_FastLoop_supported'), (12, 'KeccakP1600_12rounds_FastLoop_supported')):
                if has(f, mac):
                    cn = list(range(1, 26)) if full or 'compact' not in f else [1, 9, 17, 21, 25]
                    for i in range(0, len(cn), 5):
                        c.add(f'{f} FastLoop {op} {cn[i:i + 5]}', loops_single, unit=u, nm=f, op=op, cnts=cn[i:i + 5], hint=hint_of(f))
    rng = random.Random(SEED)
    for N, f in K_PAR:
        u = unit_par(c, N, f)
        hf = u['hflags']
        for op, mac in ((17, '-DFL24'), (18, '-DFL12')):
            if mac in hf:
                for k in range(8 if full else 3):
                    c.add(f'{f} FastLoop {op} {k}', loops_par, unit=u, nm=f, N=N, op=op, cases=par_cases(N, k, rng))
        if '-DKCOMP' in hf:
            for n in [N * 200, N * 400 + 199, N * 600] if full else [N * 200 + 7, N * 400]:
                c.add(f'{f} Kravatte compress {n}', kra, unit=u, nm=f, fn='h_kcompress', N=N, n=n)
                c.add(f'{f} Kravatte expand {n}', kra, unit=u, nm=f, fn='h_kexpand', N=N, n=n)
        if '-DLEAVES' in hf:
            c.add(f'{f} leaves128', leaves, unit=u, nm=f, fn='h_leaves128', cv=32)
            c.add(f'{f} leaves256', leaves, unit=u, nm=f, fn='h_leaves256', cv=64)
    c.run()
