"""C20: wide block ciphers Kravatte-WBC(-AE) and Xoofff-WBC(-AE)."""
from deckdrv import *


def lengths(b, full):
    L = list(range(0, 49)) + [63, 64, 65, 127, 128, 129, b // 2, b - 1, b, b + 1]
    for k in (1, 2, 3, 4, 5, 8, 9, 16, 17):
        L += [k * b + d for d in (-19, -18, -17, -11, -10, -9, -8, -7, -1, 0, 1, 7, 8, 9)]
    L += [33 * b - 10, 33 * b - 11, 33 * b + 3, 40 * b]
    return sorted(set(L)) if not full else sorted(set(L) | set(range(6 * b)))


def main():
    c = Check('C20')
    full = TIER == 'thorough'
    c.bounds = ['all keys, tweaks, texts symbolic, unused bits of partial bytes included; permutations and low-level services replaced by their '
                'contracts (decided by C01-C07)',
                'texts of 0..40 blocks with bit-granular lengths around byte boundaries and every boundary where the split changes; tweaks of 0..5 blocks',
                'AE: forged ciphertexts symbolic, the redundancy test splits the execution']
    c.assumptions = ['low-level services behave as their contracts']
    for kind, frag, flag in (('kravatte', 'Kravatte', ''), ('xoofff', 'Xoofff', '-DXOOFFF')):
        b = 1600 if kind == 'kravatte' else 384
        for t in (TARGETS if full else ['reference', 'generic64', 'AVX2', 'AVX512']):
            rng = random.Random(f'{SEED} {kind}')
            tw = lambda: rng.choice([0, 0, 1, 7, 8, 64, 128, 130, b - 1, b, b + 3, 5 * b - 3])
            u = unit_mode(c, t, [frag], 'deck.c', flag)
            L = lengths(b, full)
            rng.shuffle(L)
            sc = []
            for i in range(0, len(L), 4):
                s = Script()
                dkey(s, kind, rng.choice([0, 1, 128, 131, b - 1]))
                for n in L[i:i + 4]:
                    wbc(s, False, n, tw())
                    wbc(s, True, n, tw())
                sc.append(s)
            grouped(c, f'{t} {kind} WBC', u, 'h_deck', sc, per=8)
            # identities: the inverse with the same tweak gives the text back, in both orders
            sc = []
            for i in range(0, len(L), 4):
                s = Script()
                dkey(s, kind, rng.choice([0, 7, 128]))
                for n in L[i:i + 4]:
                    for inv in (False, True):
                        w = tw()
                        _, co = wbc(s, inv, n, w)
                        pi, wi = s.ins
                        wbc(s, not inv, n, w, src=co, at=wi, plain=pi)
                sc.append(s)
            grouped(c, f'{t} {kind} WBC inverse', u, 'h_deck', sc, per=8)
            sc = []
            for i in range(0, len(L), 4):
                s = Script()
                dkey(s, kind, rng.choice([0, 7, 128]))
                for n in L[i:i + 4]:
                    w = tw()
                    _, co = waenc(s, n, w)
                    pi, wi = s.ins
                    wadec(s, n, w, src=co, at=wi, plain=pi)
                sc.append(s)
            grouped(c, f'{t} {kind} WBC-AE', u, 'h_deck', sc, per=8)
            sc = []
            for n in [0, 1, 7, 8, 13, 64, b - 130, b - 128, b, 2 * b - 139, 2 * b - 138, 2 * b - 137, 2 * b - 128, 3 * b + 5, 9 * b]:
                s = Script()
                dkey(s, kind, 128)
                wadec(s, n, rng.choice([0, 5, 64]))
                wbc(s, False, 24, 8)
                sc.append(s)
            grouped(c, f'{t} {kind} WBC-AE forgery', u, 'h_deck', sc, per=4, fork=True)
    c.run()
