"""C01: Keccak-p[1600, n] conformance of every x86-64 and portable implementation."""
from checklib import *
import keccak
from strs import lanes

IMPLS = ['K1600-ref-64bits', 'K1600-ref-32bits', 'K1600-compact', 'K1600-plain-32bits-inplace', 'K1600-plain-64bits-u6',
         'K1600-plain-64bits-ua', 'K1600-plain-64bits-lcu6', 'K1600-plain-64bits-lcua', 'K1600-plain-64bits-lcua-shld',
         'K1600-AVX512-C', 'K1600-XOP-u6', 'K1600-XOP-ua']
ASM = ['K1600-x86-64', 'K1600-x86-64-shld', 'K1600-AVX2', 'K1600-AVX512']


def case(unit, n, hint):
    def spec(s):
        A = [s['in'].get(8 * i, 8) for i in range(25)]
        return {'out': lanes(s.keccak(A, n % 100 if n > 100 else n))}
    return run_case(unit, 'h_perm', [In('in', 200), Out('out', 200), n], spec, hint=hint, desc=f'{unit["name"]} rounds={n % 100}')


def task(unit, rounds, hint):
    r = {'obligations': 0, 'violation': None, 'paths': 0}
    for n in rounds:
        q = case(unit, n, hint)
        r['obligations'] += q['obligations']
        r['paths'] += q['paths']
        if q['violation']:
            r['violation'] = q['violation']
            break
    r['sample'] = f'rounds {rounds}: Extract(Permute(AddBytes(Initialize(), x))) = Keccak-p(x) for symbolic 200-byte x'
    return r


def main():
    c = Check('C01')
    c.bounds = ['all 2^1600 states; rounds 1..24 through the n-round entry point plus the 12- and 24-round entry points']
    c.assumptions = ['portable C is judged as compiled by clang-18 -O1 to IR; x86-64 assembly as assembled by gcc']
    for f in IMPLS + ASM:
        u = c.unit(f, [f], ['keccak_perm.c'], hflags='-mxop' if 'XOP' in f else '-mavx512f -mavx512vl' if 'AVX512' in f else
                   '-mavx2' if 'AVX2' in f else '')
        h = 'ih' if '32' in f.replace('32bits-', '32') and '32bits' in f else ''
        for rs in ([112, 124], [24, 23, 22, 21], [20, 19, 18, 17, 16], [15, 14, 13, 12, 11, 10], [9, 8, 7, 6, 5, 4, 3, 2, 1]):
            c.add(f'{f} rounds {rs}', task, unit=u, rounds=rs, hint=h)
    c.run()
