"""C02: byte-level access to the Keccak-p[1600] state, every implementation."""
from lowlib import *

OPS = ['add', 'overwrite', 'extract', 'extractadd', 'extractadd-inplace', 'zero', 'addbyte']


def main():
    c = Check('C02')
    full = 1 if TIER == 'thorough' else 0
    c.bounds = ['all states and all data; ' + ('every (offset, length) with offset+length <= 200' if full else
                'every offset 0..200 with about 20 stratified lengths each (8 for the two 32-bit implementations)')
                + '; every byte count of OverwriteWithZeroes, every offset of AddByte']
    c.assumptions = ['portable C is judged as compiled by clang-18 -O1 to IR; x86-64 assembly as assembled by gcc']
    for f in K_SINGLE:
        u = unit_single(c, f)
        k = 4 if is32(f) else 2 if full else 1
        for r in range(k):
            for g in (OPS[1:2], OPS[:1], OPS[2:3], OPS[3:4], OPS[4:5]):
                c.add(f'{f} {g} {r}', access_task, unit=u, N=1, lanes=25, ls=8, par=False, names=g, insts=[0],
                      full=full if full or not is32(f) else -1, hint=hint_of(f), mod=(k, r))
        c.add(f'{f} {OPS[5:]}', access_task, unit=u, N=1, lanes=25, ls=8, par=False, names=OPS[5:], insts=[0], full=full,
              hint=hint_of(f))
        for k in range(6 if full else 2):
            c.add(f'{f} sequence {k}', seq_task, unit=u, N=1, lanes=25, ls=8, par=False, k=k, hint=hint_of(f))
    c.tasks.sort(key=lambda t: '32bits' not in t[0])
    c.run()
