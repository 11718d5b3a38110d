"""C05: Xoodoo[n] conformance, single and parallel (4, 8, 16 instances)."""
from lowlib import *


def main():
    c = Check('C05')
    c.bounds = ['all states; 6- and 12-round entry points of every single and parallel implementation, n = 1..12 where offered']
    c.assumptions = ['portable C is judged as compiled by clang-18 -O1 to IR, intrinsics by their LLVM IR meaning']
    for f in X_SINGLE:
        u = unit_single(c, f)
        ops = [(8,), (9,)] + ([(10, n) for n in range(1, 13)] if has(f, 'Xoodoo_HasNround') else [])
        for i in range(0, len(ops), 4):
            c.add(f'{f} {ops[i:i + 4]}', perm_task, unit=u, N=0, W=48, ops=ops[i:i + 4])
    for N, f in X_PAR:
        u = unit_par(c, N, f)
        for op in ((8,), (9,)):
            c.add(f'{f} {op}', perm_task, unit=u, N=N, W=48, ops=[op])
    c.run()
