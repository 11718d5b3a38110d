"""C03: parallel Keccak-p[1600] (2, 4, 8 instances): permutations and state access, every x86 implementation."""
from lowlib import *

OPS = ['add', 'overwrite', 'extract', 'extractadd', 'extractadd-inplace']
LOPS = ['addlanes', 'overwritelanes', 'extractlanes', 'extractaddlanes', 'extractaddlanes-inplace']


def main():
    c = Check('C03')
    full = 1 if TIER == 'thorough' else 0
    c.bounds = ['all states and data; permutations of 4, 6, 12 and 24 rounds; byte access on ' +
                ('every instance, offset and length' if full else 'every instance and offset with about 20 stratified lengths') +
                '; lane access with every lane count 0..25 and ' + ('lane offsets laneCount..25, 28, 32' if full else
                                                                    'lane offsets laneCount, 25 and 28')]
    c.assumptions = ['portable C is judged as compiled by clang-18 -O1 to IR, intrinsics by their LLVM IR meaning']
    for N, f in K_PAR:
        u = unit_par(c, N, f)
        for op in ((10,), (8,), (9,), (11,)):
            c.add(f'{f} permutation {op}', perm_task, unit=u, N=N, W=200, ops=[op])
        for g in OPS:
            for i in range(N):
                c.add(f'{f} {g} {i}', access_task, unit=u, N=N, lanes=25, ls=8, par=True, names=[g], insts=[i], full=full)
        c.add(f'{f} zero', access_task, unit=u, N=N, lanes=25, ls=8, par=True, names=['zero', 'addbyte'], insts=range(N), full=full)
        c.add(f'{f} lanes', access_task, unit=u, N=N, lanes=25, ls=8, par=True, names=LOPS, insts=[0], full=full)
        for k in range(4 if full else 1):
            c.add(f'{f} sequence {k}', seq_task, unit=u, N=N, lanes=25, ls=8, par=True, k=k)
    c.run()
