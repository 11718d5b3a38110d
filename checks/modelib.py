"""Scripts of calls of the modes: each operation is run by the C harness and by a mathematical model."""
import random
import struct
from checklib import *
from strs import EMPTY, lanes
import modes

TARGETS = ['reference', 'compact', 'generic32', 'generic64', 'generic64lc', 'SSSE3', 'AVX', 'AVX2', 'AVX512']
MAIN = ['generic64', 'SSSE3', 'AVX2', 'AVX512']


def hook(prog):
    use_contracts(prog)
    quiet(prog)


def quiet(prog):
    for k in ('displayBytes', 'displayText', 'displayBits', 'displayStateAsBytes', 'displayStateAs32bitWords', 'displayStateAsLanes',
              'displaySetIntermediateValueFile', 'displaySetLevel', 'displayRoundNumber', 'displayXORSetIntermediateValue',
              'displayStateAsBytes', 'displayXoodooState'):
        prog.hook(k, lambda m, *a: 0)


class Ctx:
    def __init__(self, sp):
        self.sp = sp
        self.o = {}
        self.put = []

    def keccak(self, A, n):
        return self.sp.keccak(list(A), n)

    def xoodoo(self, A, n):
        return self.sp.xoodoo(list(A), n)


class Script:
    def __init__(self):
        self.rec = []
        self.ni = 0
        self.no = 0
        self.steps = []
        self.desc = []

    def op(self, code, slot=0, args=(), ins=(), outs=(), f=None, desc='', at=None):
        """outs: byte counts, or 'r' for a returned integer (8 bytes). f(ctx, *inputs) returns one value per output.

        at: offset of earlier inputs to use again. Returns the offsets of the outputs in the output buffer."""
        a = list(args)
        assert len(a) <= 6
        if at is not None:
            self.rec.append([99, 0, at] + [0] * 5)
        self.rec.append([code, slot] + a + [0] * (6 - len(a)))
        ip = []
        pos = self.ni if at is None else at
        for n in ins:
            ip.append((pos, n))
            pos += n + (-n) % 8
        if at is None:
            self.ni = pos
        else:
            assert pos <= self.ni
            self.rec.append([99, 0, self.ni] + [0] * 5)
        self.ins = [o for o, n in ip]
        op = []
        sizes = [8 if n == 'r' else n for n in outs]
        for n in sizes:
            op.append(self.no)
            self.no += n + (-n) % 8
        self.steps.append((ip, sizes, f))
        self.desc.append(desc or f'{code}{tuple(args)}')
        return op

    def spec(self, sp):
        ctx = Ctx(sp)
        out = EMPTY
        ctx.out = lambda off, n: out[off:off + n]
        ctx.inp = lambda off, bits: modes.maskbits(sp['in'][off:off + (bits + 7) // 8], bits)
        for ip, sizes, f in self.steps:
            ins = [sp['in'][o:o + n] for o, n in ip]
            res = f(ctx, *ins) if f else None
            if not sizes:
                continue
            if not isinstance(res, (list, tuple)):
                res = [res]
            assert len(res) == len(sizes), (len(res), sizes)
            for r, n in zip(res, sizes):
                if not isinstance(r, Str):
                    r = V([(r if type(r) is int else tm.zext(r, r.w, 64), 8)])
                assert len(r) == n, (len(r), n)
                out = out + r + bytes(-n % 8)
        assert len(out) == self.no
        return {'out': out}

    def packed(self):
        return b''.join(struct.pack('<8I', *[x & 0xFFFFFFFF for x in r]) for r in self.rec)


def run_script(unit, fn, s, desc, fork=False, maxpaths=64, reset=True, hooks=hook, uf=True, hint=''):
    args = [Const('sc', s.packed()), len(s.rec), In('in', s.ni), Out('out', s.no)]
    q = run_case(unit, fn, args, s.spec, uf=uf, hint=hint, fork=fork, desc=f'{desc}: ' + ' '.join(s.desc)[:600], hooks=hooks, maxpaths=maxpaths,
                 reset=reset)
    return q


def run_many(unit, fn, scripts, desc, fork=False, maxpaths=64, **kw):
    """Several scripts in one task; stops at the first violation."""
    tot = {'obligations': 0, 'paths': 0, 'violation': None, 'sample': f'{desc}: ' + ' '.join(scripts[0].desc)[:200]}
    for s in scripts:
        q = run_script(unit, fn, s, desc, fork, maxpaths, **kw)
        tot['obligations'] += q['obligations']
        tot['paths'] += q['paths']
        if q['violation']:
            tot['violation'] = q['violation']
            break
    return tot


def run_whole(unit, fn, scripts, desc, hint=''):
    """Without contracts: the real low-level code and permutations are executed as well."""
    return run_many(unit, fn, scripts, desc, hooks=quiet, uf=False, hint=hint)


def unit_whole(c, target, frags, harness, extra=''):
    return c.unit('whole-' + '-'.join([target] + frags), [target] + frags, [harness], hflags=extra)


def unit_mode(c, target, frags, harness, extra=''):
    return c.unit('-'.join([target] + frags), [target] + frags, [harness], filter=r'^lib/high|harness', hflags=extra)


def split(rng, n, parts):
    """n as a sum of parts >= 0 parts."""
    cuts = sorted(rng.randint(0, n) for _ in range(parts - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def grouped(c, name, unit, fn, scripts, per=12, **kw):
    for i in range(0, len(scripts), per):
        c.add(f'{name} {i // per}', run_many, unit=unit, fn=fn, scripts=scripts[i:i + per], desc=name, **kw)
