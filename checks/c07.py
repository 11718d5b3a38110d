"""C07: bulk Xoodoo functions (Xoofff compression and expansion, masked addition, Xoodyak full blocks)."""
from lowlib import *


def wrap(q, s):
    q['sample'] = s
    return q


def xo(unit, nm, fn, N, n):
    if fn == 'h_xcompress':
        args = [InOut('k', 48), InOut('x', 48), In('in', n), n, Out('rv', 8)]
    elif fn == 'h_xexpand':
        args = [InOut('y', 48), In('k', 48), Out('out', n // (48 * N) * 48 * N), n, Out('rv', 8)]
    else:
        args = [InOut('o', (n + 7) // 8), In('i', (n + 7) // 8), n]
    return wrap(run_case(unit, fn, args, contract_spec(unit, fn, args, ''), desc=f'{nm} {fn} {n}'), f'{nm}: {fn} of {n} bytes or bits')


def yak(unit, nm, sc, ni, no):
    return wrap(script_case(unit, sc, ni, no, '', f'{nm} Xoodyak full blocks {sc[2:-1]}'), f'{nm}: full blocks {sc[2:-1]}')


def main():
    c = Check('C07')
    full = TIER == 'thorough'
    c.bounds = ['Xoofff: one to four full groups with and without a remainder; masked addition of 1..400 bits; Xoodyak full-block '
                'functions of one to four blocks with and without a remainder; all states and data symbolic']
    c.assumptions = ['portable C is judged as compiled by clang-18 -O1 to IR, intrinsics by their LLVM IR meaning']
    for f in X_SINGLE:
        u = unit_single(c, f)
        if has(f, 'Xoodoo_FastXoofff_supported'):
            for n in [48, 96 + 47, 192, 49] if full else [48, 96 + 47]:
                c.add(f'{f} Xoofff compress {n}', xo, unit=u, nm=f, fn='h_xcompress', N=1, n=n)
                c.add(f'{f} Xoofff expand {n}', xo, unit=u, nm=f, fn='h_xexpand', N=1, n=n)
            for n in range(1, 401) if full else list(range(1, 80)) + [255, 256, 257, 384, 391]:
                c.add(f'{f} Xoofff_AddIs {n}', xo, unit=u, nm=f, fn='h_addis', N=1, n=n)
        if has(f, 'CyclistFullBlocks_supported'):
            for k in range(1, 5 if full else 3):
                for e in (0, 1, 43) if full else (0, 13):
                    for op, a, r in ((13, 1, 44), (13, 0, 16), (14, 0, 16), (14, 1, 24), (15, 0, 24), (15, 1, 24), (16, 0, 24), (16, 1, 24)):
                        n = k * r + min(e, r - 1)
                        ni = 48 + (n if op != 14 else 0)
                        no = 48 + 8 + (k * r if op != 13 else 0)
                        c.add(f'{f} Xoodyak {op} {a} {n}', yak, unit=u, nm=f, sc=[(0,), (1, 0, 48), (op, a, n), (5, 0, 48)], ni=ni, no=no)
    for N, f in X_PAR:
        u = unit_par(c, N, f)
        if '-DXCOMP' in u['hflags']:
            for n in [N * 48, N * 96 + 47, N * 144] if full else [N * 48 + 7, N * 96]:
                c.add(f'{f} Xoofff compress {n}', xo, unit=u, nm=f, fn='h_xcompress', N=N, n=n)
                c.add(f'{f} Xoofff expand {n}', xo, unit=u, nm=f, fn='h_xexpand', N=N, n=n)
    c.run()
