"""Contracts of the low-level services (SnP, PlSnP and the bulk loops) as functions over the executor's memory.

State layout used by the contracts: lane l of instance i of N at byte offset (l*N + i) * laneSize (instance 0 of 1 for the
single permutations), which is the layout the AddByte macros of the headers use.

The same functions are the specification the low-level checks compare the real code with (permutation = specification) and
the replacement of the low-level services in the checks of the modes (permutation = uninterpreted function).
"""
import re
import terms as tm
from mem import ExecError, MemViolation
import keccak


def uf_perm(kind, A, n):
    if all(type(a) is int for a in A):
        return keccak.keccak_p(A, n) if kind == 'K' else keccak.xoodoo(A, n)
    nm, w = (f'keccakp{n}', 64) if kind == 'K' else (f'xoodoo{n}', 32)
    return tm.ufuns(nm, w, len(A), tuple(A))


def spec_perm(hint=''):
    def f(kind, A, n):
        return keccak.keccak_p(A, n, hint) if kind == 'K' else keccak.xoodoo(A, n)
    return f


class Fam:
    """State family: prefix, lanes, lane size in bytes, instances."""

    def __init__(self, kind, N):
        self.kind, self.N = kind, N
        self.lanes, self.ls = (25, 8) if kind == 'K' else (12, 4)
        self.bytes = self.lanes * self.ls

    def a(self, st, i, l):
        return st + (l * self.N + i) * self.ls


def pieces(F, off, n):
    """(lane, offset in lane, count) covering bytes [off, off+n) of an instance."""
    while n:
        l, o = divmod(off, F.ls)
        k = min(F.ls - o, n)
        yield l, o, k
        off += k
        n -= k


def install(prog, perm=uf_perm):
    hooks = {}

    def family(F, pre, all_):
        S = F.a

        def chk(off, n):
            if off + n > F.bytes:
                raise MemViolation(f'{pre}: offset {off} + length {n} beyond the state')

        def inst(i):
            if i >= F.N:
                raise MemViolation(f'{pre}: instance {i}')

        def permute(m, st, n):
            for i in range(F.N):
                A = [m.ld(S(st, i, l), F.ls) for l in range(F.lanes)]
                for l, v in enumerate(perm(F.kind, A, n)):
                    m.st(S(st, i, l), F.ls, v)

        def init(m, st):
            for l in range(F.lanes * F.N):
                m.st(st + l * F.ls, F.ls, 0)

        def addbytes(m, st, i, data, off, n):
            chk(off, n)
            inst(i)
            for l, o, k in pieces(F, off, n):
                p = S(st, i, l) + o
                m.st(p, k, tm.xor(m.ld(p, k), m.ld(data, k), 8 * k))
                data += k

        def addbyte(m, st, i, b, off):
            chk(off, 1)
            p = S(st, i, off // F.ls) + off % F.ls
            b = b & 255 if type(b) is int else tm.ext(b, 0, 8)
            m.st(p, 1, tm.xor(m.ld(p, 1), b, 8))

        def overwrite(m, st, i, data, off, n):
            chk(off, n)
            inst(i)
            for l, o, k in pieces(F, off, n):
                m.st(S(st, i, l) + o, k, m.ld(data, k))
                data += k

        def zero(m, st, i, n):
            chk(0, n)
            inst(i)
            for l, o, k in pieces(F, 0, n):
                m.st(S(st, i, l) + o, k, 0)

        def extract(m, st, i, data, off, n):
            chk(off, n)
            inst(i)
            for l, o, k in pieces(F, off, n):
                m.st(data, k, m.ld(S(st, i, l) + o, k))
                data += k

        def extractadd(m, st, i, inp, out, off, n):
            chk(off, n)
            inst(i)
            for l, o, k in pieces(F, off, n):
                m.st(out, k, tm.xor(m.ld(inp, k), m.ld(S(st, i, l) + o, k), 8 * k))
                inp += k
                out += k

        def lanesall(f):
            def g(m, st, *a):
                *ptrs, cnt, loff = a
                if cnt > F.lanes:
                    raise MemViolation('lane count')
                for i in range(F.N):
                    f(m, st, i, *[p + i * loff * F.ls for p in ptrs], 0, cnt * F.ls)
            return g

        h = {}
        if not all_:
            h['Initialize'] = init
            h['AddByte'] = lambda m, st, b, off: addbyte(m, st, 0, b, off)
            h['AddBytes'] = lambda m, st, d, off, n: addbytes(m, st, 0, d, off, n)
            h['OverwriteBytes'] = lambda m, st, d, off, n: overwrite(m, st, 0, d, off, n)
            h['OverwriteWithZeroes'] = lambda m, st, n: zero(m, st, 0, n)
            h['ExtractBytes'] = lambda m, st, d, off, n: extract(m, st, 0, d, off, n)
            h['ExtractAndAddBytes'] = lambda m, st, i, o, off, n: extractadd(m, st, 0, i, o, off, n)
            h['Permute_Nrounds'] = permute
            for n in ((12, 24) if F.kind == 'K' else (6, 12)):
                h[f'Permute_{n}rounds'] = lambda m, st, n=n: permute(m, st, n)
        else:
            h['InitializeAll'] = init
            h['AddByte'] = addbyte
            h['AddBytes'] = addbytes
            h['OverwriteBytes'] = overwrite
            h['OverwriteWithZeroes'] = zero
            h['ExtractBytes'] = extract
            h['ExtractAndAddBytes'] = extractadd
            h['AddLanesAll'] = lanesall(addbytes)
            h['OverwriteLanesAll'] = lanesall(overwrite)
            h['ExtractLanesAll'] = lanesall(extract)
            h['ExtractAndAddLanesAll'] = lanesall(extractadd)
            h['PermuteAll_Nrounds'] = permute
            for n in ((4, 6, 12, 24) if F.kind == 'K' else (6, 12)):
                h[f'PermuteAll_{n}rounds'] = lambda m, st, n=n: permute(m, st, n)
        h['StaticInitialize'] = lambda m: None
        for k, v in h.items():
            hooks[f'{pre}_{k}'] = v
        F.addbytes, F.permute, F.overwrite, F.extract, F.extractadd, F.addbyte = addbytes, permute, overwrite, extract, extractadd, addbyte
        return F

    K1 = family(Fam('K', 1), 'KeccakP1600', False)
    X1 = family(Fam('X', 1), 'Xoodoo', False)
    KP = {N: family(Fam('K', N), f'KeccakP1600times{N}', True) for N in (2, 4, 8)}
    XP = {N: family(Fam('X', N), f'Xoodootimes{N}', True) for N in (4, 8, 16)}

    def fastloop1(n):
        def f(m, st, cnt, data, ln):
            t = 0
            while ln - t >= cnt * 8:
                K1.addbytes(m, st, 0, data + t, 0, cnt * 8)
                K1.permute(m, st, n)
                t += cnt * 8
            return t
        return f
    hooks['KeccakF1600_FastLoop_Absorb'] = fastloop1(24)
    hooks['KeccakP1600_12rounds_FastLoop_Absorb'] = fastloop1(12)

    def fastloopN(N, n):
        F = KP[N]

        def f(m, st, cnt, lop, los, data, ln):
            t = 0
            while ln - t >= (lop * (N - 1) + cnt) * 8:
                for i in range(N):
                    F.addbytes(m, st, i, data + t + i * lop * 8, 0, cnt * 8)
                F.permute(m, st, n)
                t += los * 8
            return t
        return f
    for N in (2, 4, 8):
        hooks[f'KeccakF1600times{N}_FastLoop_Absorb'] = fastloopN(N, 24)
        hooks[f'KeccakP1600times{N}_12rounds_FastLoop_Absorb'] = fastloopN(N, 12)

    def leaves(rate, cv):
        def f(m, inp, out):
            for i in range(8):
                A = [0] * 25
                p = inp + i * 8192
                left = 8192
                while left >= rate:
                    A = [tm.xor(A[l], m.ld(p + 8 * l, 8), 64) if l < rate // 8 else A[l] for l in range(25)]
                    A = perm('K', A, 12)
                    p += rate
                    left -= rate
                blk = [m.ld(p + 8 * l, 8) for l in range(left // 8)] + [0] * (rate // 8 - left // 8)
                blk[left // 8] = tm.xor(blk[left // 8], 0x0B, 64)
                blk[-1] = tm.xor(blk[-1], 0x80 << 56, 64)
                A = [tm.xor(A[l], blk[l], 64) if l < rate // 8 else A[l] for l in range(25)]
                A = perm('K', A, 12)
                for l in range(cv // 8):
                    m.st(out + i * cv + 8 * l, 8, A[l])
        return f
    for N in (8,):
        hooks[f'KeccakP1600times{N}_KT128ProcessLeaves'] = leaves(168, 32)
        hooks[f'KeccakP1600times{N}_KT256ProcessLeaves'] = leaves(136, 64)

    # Kravatte
    def kcompress(N):
        def f(m, x, k, inp, ln):
            t = 0
            while ln - t >= 200 * N:
                for _ in range(N):
                    K = [m.ld(k + 8 * l, 8) for l in range(25)]
                    A = perm('K', [tm.xor(K[l], m.ld(inp + t + 8 * l, 8), 64) for l in range(25)], 6)
                    for l in range(25):
                        m.st(x + 8 * l, 8, tm.xor(m.ld(x + 8 * l, 8), A[l], 64))
                    K = keccak.rollc(K)
                    for l in range(20, 25):
                        m.st(k + 8 * l, 8, K[l])
                    t += 200
            return t
        return f

    def kexpand(N):
        def f(m, y, k, out, ln):
            t = 0
            while ln - t >= 200 * N:
                for _ in range(N):
                    Y = [m.ld(y + 8 * l, 8) for l in range(25)]
                    A = perm('K', Y, 6)
                    for l in range(25):
                        m.st(out + t + 8 * l, 8, tm.xor(m.ld(k + 8 * l, 8), A[l], 64))
                    Y = keccak.rolle(Y)
                    for l in range(15, 25):
                        m.st(y + 8 * l, 8, Y[l])
                    t += 200
            return t
        return f
    for N in (2, 4, 8):
        hooks[f'KeccakP1600times{N}_KravatteCompress'] = kcompress(N)
        hooks[f'KeccakP1600times{N}_KravatteExpand'] = kexpand(N)

    # Xoofff
    def xcompress(N):
        def f(m, k, x, inp, ln):
            t = 0
            while ln - t >= 48 * N:
                for _ in range(N):
                    K = [m.ld(k + 4 * l, 4) for l in range(12)]
                    A = perm('X', [tm.xor(K[l], m.ld(inp + t + 4 * l, 4), 32) for l in range(12)], 6)
                    K = keccak.xrollc(K)
                    for l in range(12):
                        m.st(x + 4 * l, 4, tm.xor(m.ld(x + 4 * l, 4), A[l], 32))
                        m.st(k + 4 * l, 4, K[l])
                    t += 48
            return t
        return f

    def xexpand(N):
        def f(m, y, k, out, ln):
            t = 0
            while ln - t >= 48 * N:
                for _ in range(N):
                    Y = [m.ld(y + 4 * l, 4) for l in range(12)]
                    A = perm('X', Y, 6)
                    Y = keccak.xrolle(Y)
                    for l in range(12):
                        m.st(out + t + 4 * l, 4, tm.xor(m.ld(k + 4 * l, 4), A[l], 32))
                        m.st(y + 4 * l, 4, Y[l])
                    t += 48
            return t
        return f
    hooks['Xoofff_CompressFastLoop'] = xcompress(1)
    hooks['Xoofff_ExpandFastLoop'] = xexpand(1)
    for N in (4, 8, 16):
        hooks[f'Xooffftimes{N}_CompressFastLoop'] = xcompress(N)
        hooks[f'Xooffftimes{N}_ExpandFastLoop'] = xexpand(N)

    def addis(m, out, inp, bits):
        n = bits // 8
        i = 0
        while i < n:
            k = min(8, n - i)
            m.st(out + i, k, tm.xor(m.ld(out + i, k), m.ld(inp + i, k), 8 * k))
            i += k
        if bits & 7:
            v = tm.xor(m.ld(out + n, 1), m.ld(inp + n, 1), 8)
            m.st(out + n, 1, tm.mask(v, (1 << (bits & 7)) - 1, 8))
    for N in ('Xoofff', 'Xooffftimes4', 'Xooffftimes8', 'Xooffftimes16'):
        hooks[f'{N}_AddIs'] = addis

    # Xoodyak
    def absorb(r):
        def f(m, st, X, ln):
            t = 0
            while ln - t >= r:
                X1.permute(m, st, 12)
                X1.addbytes(m, st, 0, X + t, 0, r)
                X1.addbyte(m, st, 0, 1, r)
                t += r
            return t
        return f

    def squeeze(r):
        def f(m, st, Y, ln):
            t = 0
            while ln - t >= r:
                X1.addbyte(m, st, 0, 1, 0)
                X1.permute(m, st, 12)
                X1.extract(m, st, 0, Y + t, 0, r)
                t += r
            return t
        return f

    def crypt(dec):
        def f(m, st, I, O, ln):
            t = 0
            while ln - t >= 24:
                X1.permute(m, st, 12)
                src = [m.ld(I + t + 4 * l, 4) for l in range(6)]
                X1.extractadd(m, st, 0, I + t, O + t, 0, 24)
                for l in range(6):
                    m.st(st + 4 * l, 4, src[l] if dec else m.ld(O + t + 4 * l, 4))
                X1.addbyte(m, st, 0, 1, 24)
                t += 24
            return t
        return f
    hooks['Xoodyak_AbsorbKeyedFullBlocks'] = absorb(44)
    hooks['Xoodyak_AbsorbHashFullBlocks'] = absorb(16)
    hooks['Xoodyak_SqueezeHashFullBlocks'] = squeeze(16)
    hooks['Xoodyak_SqueezeKeyedFullBlocks'] = squeeze(24)
    hooks['Xoodyak_EncryptFullBlocks'] = crypt(False)
    hooks['Xoodyak_DecryptFullBlocks'] = crypt(True)

    for k, v in hooks.items():
        prog.hook(k, v)
    return hooks


def undefined_only(prog, hooks):
    """Removes hooks of functions that the linked module itself defines (they are then executed for real)."""
    for k in hooks:
        if k in prog.mod.fsrc:
            prog.unhook(k)
