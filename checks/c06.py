"""C06: byte and lane access to Xoodoo states, single and parallel."""
from lowlib import *

OPS = ['add', 'overwrite', 'extract', 'extractadd', 'extractadd-inplace']
LOPS = ['addlanes', 'overwritelanes', 'extractlanes', 'extractaddlanes', 'extractaddlanes-inplace']


def main():
    c = Check('C06')
    full = 1 if TIER == 'thorough' else 0
    c.bounds = ['all states and data; single: every (offset, length) with offset+length <= 48; parallel: every instance and offset with '
                + ('every length' if full else 'about 20 stratified lengths') + '; every lane count 0..12 with several lane offsets']
    c.assumptions = ['portable C is judged as compiled by clang-18 -O1 to IR, intrinsics by their LLVM IR meaning']
    for f in X_SINGLE:
        u = unit_single(c, f)
        for g in OPS + ['zero', 'addbyte']:
            c.add(f'{f} {g}', access_task, unit=u, N=1, lanes=12, ls=4, par=False, names=[g], insts=[0], full=1)
        for k in range(6 if full else 3):
            c.add(f'{f} sequence {k}', seq_task, unit=u, N=1, lanes=12, ls=4, par=False, k=k)
    for N, f in X_PAR:
        u = unit_par(c, N, f)
        for i in range(N):
            c.add(f'{f} instance {i}', access_task, unit=u, N=N, lanes=12, ls=4, par=True, names=OPS + ['zero', 'addbyte'], insts=[i], full=full)
        c.add(f'{f} lanes', access_task, unit=u, N=N, lanes=12, ls=4, par=True, names=LOPS, insts=[0], full=1)
        for k in range(6 if full else 2):
            c.add(f'{f} sequence {k}', seq_task, unit=u, N=N, lanes=12, ls=4, par=True, k=k)
    c.run()
