"""Keccak-p[1600, n] and Xoodoo[n], written from FIPS 202 and the Xoodoo cookbook over symbolic or concrete lanes.

Lanes are 64-bit (32-bit for Xoodoo) values, index x + 5 y (x + 4 y).
"""
import terms as tm


def _rc():
    out = []
    lfsr = 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if lfsr & 1:
                c ^= 1 << ((1 << j) - 1)
            lfsr = (lfsr << 1) ^ (0x171 if lfsr & 0x80 else 0)
        out.append(c)
    return out


RC = _rc()


def _rho():
    r = [0] * 25
    x, y = 1, 0
    for t in range(24):
        r[x + 5 * y] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    return r


RHO = _rho()
EVEN = tuple(range(0, 64, 2))
ODD = tuple(range(1, 64, 2))


def hints(lane, mode):
    """Derived nodes that implementations may hold instead of the lane; they never affect soundness."""
    if type(lane) is int:
        return
    if 'i' in mode:
        tm.register(tm.perm(lane, EVEN))
        tm.register(tm.perm(lane, ODD))
    if 'h' in mode:
        tm.register(tm.ext(lane, 0, 32))
        tm.register(tm.ext(lane, 32, 32))


def cut(A):
    A = list(A)
    for i, v in enumerate(A):
        if type(v) is not int and v.op not in ('V', 'E', 'R', 'U'):
            if v.op == 'C' and not v.fz:
                A[i] = tm.opaque(v)
            else:
                tm.freeze(v)
    return A


def keccak_round(A, rc, mode=''):
    x64 = lambda a, b: tm.xor(a, b, 64)
    C = [x64(x64(x64(x64(A[x], A[x + 5]), A[x + 10]), A[x + 15]), A[x + 20]) for x in range(5)]
    D = [x64(C[(x + 4) % 5], tm.rotl(C[(x + 1) % 5], 1, 64)) for x in range(5)]
    B = [0] * 25
    for x in range(5):
        for y in range(5):
            B[y + 5 * ((2 * x + 3 * y) % 5)] = tm.rotl(x64(A[x + 5 * y], D[x]), RHO[x + 5 * y], 64)
    R = [0] * 25
    for y in range(5):
        for x in range(5):
            v = x64(B[x + 5 * y], tm.and_(tm.not_(B[(x + 1) % 5 + 5 * y], 64), B[(x + 2) % 5 + 5 * y], 64))
            if x == 0 and y == 0:
                v = x64(v, rc)
            R[x + 5 * y] = tm.freeze(v)
    if mode:
        for v in R:
            hints(v, mode)
    return R


def keccak_p(A, n=24, mode=''):
    A = cut(A)
    if mode:
        for v in A:
            if type(v) is not int and v.atomic:
                hints(v, mode)
    for i in range(24 - n, 24):
        A = keccak_round(A, RC[i], mode)
    return A


XRC = [0x58, 0x38, 0x3C0, 0xD0, 0x120, 0x14, 0x60, 0x2C, 0x380, 0xF0, 0x1A0, 0x12]


def xoodoo_round(A, rc):
    x32 = lambda a, b: tm.xor(a, b, 32)
    P = [x32(x32(A[x], A[x + 4]), A[x + 8]) for x in range(4)]
    E = [x32(tm.rotl(P[(x + 3) % 4], 5, 32), tm.rotl(P[(x + 3) % 4], 14, 32)) for x in range(4)]
    A = [x32(A[i], E[i % 4]) for i in range(12)]
    # rho west
    B = list(A)
    for x in range(4):
        B[x + 4] = A[(x + 3) % 4 + 4]
        B[x + 8] = tm.rotl(A[x + 8], 11, 32)
    A = B
    A[0] = x32(A[0], rc)
    R = list(A)
    for x in range(4):
        for y in range(3):
            R[x + 4 * y] = x32(A[x + 4 * y], tm.and_(tm.not_(A[x + 4 * ((y + 1) % 3)], 32), A[x + 4 * ((y + 2) % 3)], 32))
    # rho east
    B = list(R)
    for x in range(4):
        B[x + 4] = tm.rotl(R[x + 4], 1, 32)
        B[x + 8] = tm.rotl(R[(x + 2) % 4 + 8], 8, 32)
    for v in B:
        tm.freeze(v)
    return B


def xoodoo(A, n=12):
    A = cut(list(A))
    for i in range(12 - n, 12):
        A = xoodoo_round(A, XRC[i])
    return A


def rollc(K):
    """Kravatte input mask rolling: lanes 20..24 (plane y = 4)."""
    K = list(K)
    x = K[20:25]
    n = tm.xor(tm.xor(tm.rotl(x[0], 7, 64), x[1], 64), tm.lshr(x[1], 3, 64), 64)
    K[20:25] = x[1:] + [n]
    return K


def rolle(K):
    """Kravatte output state rolling: lanes 15..24 (planes y = 3 and 4)."""
    K = list(K)
    x = K[15:25]
    n = tm.xor(tm.xor(tm.rotl(x[0], 7, 64), tm.rotl(x[1], 18, 64), 64), tm.and_(x[2], tm.lshr(x[1], 1, 64), 64), 64)
    K[15:25] = x[1:] + [n]
    return K


def xrollc(A):
    """Xoofff input mask rolling."""
    n = tm.xor(tm.xor(A[0], tm.shl(A[0], 13, 32), 32), tm.rotl(A[4], 3, 32), 32)
    return A[4:12] + [A[1], A[2], A[3], n]


def xrolle(A):
    """Xoofff output state rolling."""
    n = tm.xor(tm.xor(tm.rotl(A[0], 5, 32), tm.rotl(A[4], 13, 32), 32), tm.xor(tm.and_(A[8], A[4], 32), 7, 32), 32)
    return A[4:12] + [A[1], A[2], A[3], n]
