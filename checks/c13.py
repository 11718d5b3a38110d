"""C13: KangarooTwelve (KT128, KT256)."""
from modelib import *


def kinit(s, sec, L, slot=0):
    def f(ctx):
        if sec not in (128, 256):
            return 1
        ctx.o[slot] = dict(sec=sec, L=L, msg=EMPTY, phase=0)
        return 0
    s.op(1, slot, (sec, L), (), ('r',), f, f'init {sec} {L}')


def kupdate(s, n, slot=0):
    def f(ctx, m):
        k = ctx.o[slot]
        if k['phase']:
            return 1
        k['msg'] = k['msg'] + m
        return 0
    s.op(2, slot, (n,), (n,), ('r',), f, f'update {n}')


def kfinal(s, L, cl, err=False, slot=0):
    def f(ctx, cu):
        k = ctx.o[slot]
        if k['phase']:
            return [1]
        k['t'] = modes.kt(ctx, k['sec'], k['msg'], cu)
        k['phase'] = 2 if L else 1
        return 0, k['t'].squeeze(L)
    s.op(3, slot, (L, cl), (cl,), ('r',) if err else ('r', L), f, f'final {L} custom {cl}')


def ksqueeze(s, n, err=False, slot=0):
    def f(ctx):
        k = ctx.o[slot]
        if k['phase'] != 1:
            return [1]
        return 0, k['t'].squeeze(n)
    s.op(4, slot, (n,), (), ('r',) if err else ('r', n), f, f'squeeze {n}')


def kone(s, sec, n, L, cl):
    bad = sec not in (128, 256) or L == 0

    def f(ctx, m, cu):
        if bad:
            return [1]
        return 0, modes.kt(ctx, sec, m, cu).squeeze(L)
    s.op(5, 0, (sec, n, L, cl), (n, cl), ('r',) if bad else ('r', L), f, f'KT{sec}({n},{L},{cl})')


def main():
    c = Check('C13')
    full = TIER == 'thorough'
    rng = random.Random(SEED)
    C = 8192
    c.bounds = ['all data symbolic; permutation and low-level services replaced by their contracts (decided by C01-C04)',
                'messages and customizations of 0..' + ('40' if full else '18') + ' chunks, around every chunk boundary, any split; one message of 257 leaves; outputs to 3 blocks']
    c.assumptions = ['low-level services behave as their contracts']
    for t in (TARGETS if full else ['reference', 'generic32', 'generic64', 'SSSE3', 'AVX2', 'AVX512']):
        u = unit_mode(c, t, ['KangarooTwelve'], 'kt.c')
        sc = []
        for sec in (128, 256):
            r = 200 - sec // 4
            s = Script()
            for n in (0, 1, 7, 8, r - 1, r, r + 1, 2 * r, 1000):
                kone(s, sec, n, rng.choice([1, 32, r, r + 1, 3 * r]), rng.choice([0, 1, 41, 255, 256, r]))
            kone(s, sec, 8, 0, 8)
            kone(s, 192, 8, 8, 8)
            sc.append(s)
            for n, cl in [(C - 2, 0), (C - 1, 0), (C, 0), (C + 1, 0), (C - 50, 49), (C - 50, 47), (C - 50, 48), (0, C - 3), (0, C - 2), (0, C), (1, 2 * C - 4),
                          (C, C), (2 * C - 1, 0), (2 * C, 0), (2 * C + 1, 0)]:
                s = Script()
                kone(s, sec, n, 32, cl)
                sc.append(s)
            for k in list(range(3, 12)) + [15, 16, 17, 18] + ([24, 25, 33, 40] if full else []):
                s = Script()
                kone(s, sec, k * C + rng.choice([-1, 0, 1, 5, C // 2]), rng.choice([32, r + 1]), rng.choice([0, 3, C - 2, 9 * C]) if k < 6 else rng.choice([0, 7]))
                sc.append(s)
            for k in range(16 if full else 8):
                s = Script()
                L = rng.choice([0, 0, 40])
                kinit(s, sec, L)
                parts = split(rng, rng.randint(0, 12 * C), rng.randint(1, 6)) if k % 2 else \
                    [[C, 1, C - 1, C, 3 * C, 5], [C - 1, 1, 0, C, 9 * C + 7, C - 7], [1, C, C, 2 * C - 1, 8 * C, 1], [C, 0, 8 * C, 0, C]][k // 2 % 4]
                for n in parts:
                    kupdate(s, n)
                if k == 3:
                    ksqueeze(s, 8, True)
                kfinal(s, L, rng.choice([0, 0, 1, 300, C, 2 * C + 3]))
                if L:
                    ksqueeze(s, 8, True)
                else:
                    for n in split(rng, rng.randint(0, 3 * r), rng.randint(1, 4)):
                        ksqueeze(s, n)
                kupdate(s, 3)
                kfinal(s, L, 1, True)
                sc.append(s)
        if t in ('generic64', 'AVX512') or full:
            s = Script()
            kone(s, 128, 258 * C - 5, 32, 2)
            sc.append(s)
        for sec in (0, 129, 192, 512):
            s = Script()
            kinit(s, sec, 32)
            sc.append(s)
        grouped(c, f'{t} KT', u, 'h_kt', sc, per=2)
    c.run()
