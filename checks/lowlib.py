"""Shared by the checks of the low-level services: implementations, scripts, exhaustive (offset, length) drivers."""
import struct
from checklib import *
import checklib
from mem import VarBack
from strs import V

K_SINGLE = ['K1600-ref-64bits', 'K1600-ref-32bits', 'K1600-compact', 'K1600-plain-32bits-inplace', 'K1600-plain-64bits-u6',
            'K1600-plain-64bits-ua', 'K1600-plain-64bits-lcu6', 'K1600-plain-64bits-lcua', 'K1600-plain-64bits-lcua-shld',
            'K1600-AVX512-C', 'K1600-XOP-u6', 'K1600-XOP-ua', 'K1600-x86-64', 'K1600-x86-64-shld', 'K1600-AVX2', 'K1600-AVX512']
X_SINGLE = ['Xoodoo-ref', 'Xoodoo-plain-ua', 'Xoodoo-SSE2', 'Xoodoo-AVX512']
K_PAR = [(2, 'K1600x2-SSSE3-u2'), (2, 'K1600x2-SSSE3-ua'), (2, 'K1600x2-XOP-u2'), (2, 'K1600x2-XOP-ua'), (2, 'K1600x2-AVX512-u4'),
         (2, 'K1600x2-AVX512-u12'), (2, 'K1600x2-AVX512-ua'), (4, 'K1600x4-AVX2-u6'), (4, 'K1600x4-AVX2-u12'),
         (4, 'K1600x4-AVX2-ua'), (4, 'K1600x4-AVX512-u4'), (4, 'K1600x4-AVX512-u12'), (4, 'K1600x4-AVX512-ua'),
         (8, 'K1600x8-AVX512-u4'), (8, 'K1600x8-AVX512-u12'), (8, 'K1600x8-AVX512-ua')]
X_PAR = [(4, 'Xoodoox4-SSSE3'), (4, 'Xoodoox4-AVX512'), (8, 'Xoodoox8-AVX2'), (8, 'Xoodoox8-AVX512'), (16, 'Xoodoox16-AVX512')]


def isa(f):
    return ('-mxop' if 'XOP' in f else '-mavx512f -mavx512vl' if 'AVX512' in f else '-mavx2' if 'AVX2' in f else
            '-mssse3' if 'SSSE3' in f else '')


def is32(f):
    return f in ('K1600-ref-32bits', 'K1600-plain-32bits-inplace')


def hint_of(f):
    return 'ih' if is32(f) else ''


def headers(frag):
    return '\n'.join(open(f'{build.REPO}/{t}').read() for tag, t, _ in build.resolve([frag]) if tag == 'h')


def has(frag, sym):
    return re.search(r'^[^/\n]*\b' + sym + r'\b', headers(frag), re.M) is not None


def unit_single(c, f):
    if f.startswith('K'):
        return c.unit(f, [f], ['snp.c'], hflags='-DK1600 ' + isa(f))
    return c.unit(f, [f], ['snp.c'], hflags=isa(f))


def unit_par(c, N, f):
    x = f.startswith('X')
    pl = f'Xoodootimes{N}' if x else f'KeccakP1600times{N}'
    hdr = f'Xoodoo-times{N}-SnP.h' if x else f'KeccakP-1600-times{N}-SnP.h'
    fl = f'-DPL={pl} -DHDR="{hdr}" -DN={N} -DLS={4 if x else 8}'
    fl = fl.replace('-DHDR="' + hdr + '"', f'-DHDR=<{hdr}>')
    if x:
        fl += ' -DXOODOO'
        if has(f, f'Xooffftimes{N}_CompressFastLoop'):
            fl += f' -DXCOMP=Xooffftimes{N}_CompressFastLoop -DXEXP=Xooffftimes{N}_ExpandFastLoop'
    else:
        if has(f, f'KeccakF1600times{N}_FastLoop_Absorb'):
            fl += f' -DFL24=KeccakF1600times{N}_FastLoop_Absorb'
        if has(f, f'KeccakP1600times{N}_12rounds_FastLoop_Absorb'):
            fl += f' -DFL12=KeccakP1600times{N}_12rounds_FastLoop_Absorb'
        if has(f, f'KeccakP1600times{N}_KravatteCompress'):
            fl += f' -DKCOMP=KeccakP1600times{N}_KravatteCompress -DKEXP=KeccakP1600times{N}_KravatteExpand'
        if N == 8 and has(f, 'KeccakP1600times8_KT128ProcessLeaves'):
            fl += ' -DLEAVES'
    return c.unit(f, [f] + (['Xoodoo'] if x else []), ['plsnp.c'], hflags=fl + ' ' + isa(f))


def script(ops):
    return b''.join(struct.pack('<4I', *(list(o) + [0] * (4 - len(o)))) for o in ops)


def script_case(unit, ops, inlen, outlen, hint='', desc=''):
    """Runs a script on the real implementation and on the contracts and compares every output byte."""
    args = [Const('script', script(ops)), len(ops), In('in', inlen), Out('out', outlen)]
    return run_case(unit, 'h_script', args, contract_spec(unit, 'h_script', args, hint), hint=hint, desc=desc)


def same(got, want, bits=64):
    """True when equal for all values (solver-decided unless the normal forms coincide)."""
    if got is want or (type(got) is int and type(want) is int and got == want):
        tm.STATS.identical += 1
        return True
    if tm.sig(got) != tm.sig(want):
        return False
    if type(got) is int or type(want) is int:
        r, _ = solve_diff([(got, want, bits)], [])
        return r == 'unsat'
    return tm.prove_eq(got, want)


class Access:
    """Exhaustive driver over (op, instance, offset, length) of one implementation with a symbolic state and symbolic data."""

    def __init__(self, unit, N, lanes, ls, par, hint=''):
        self.unit, self.N, self.lanes, self.ls, self.par, self.hint = unit, N, lanes, ls, par, hint
        self.bytes = lanes * ls
        self.res = {'obligations': 0, 'violation': None, 'paths': 0}
        self.prog = p = program(unit)
        tm.reset(SEED * 7919 + 2)
        p.hooks.clear()
        p.F.clear()
        if getattr(p, 'asm', None):
            p.asm.install(p)
        self.m = m = p.fresh()
        self.size = p.call('w_size')
        self.st = m.alloc(self.size, 'state')
        self.S = [VarBack(f'S{i}', self.bytes) for i in range(N)]
        # the d and e buffers hold symbolic data; gaps of lane-wise buffers are kept apart from them
        self.D = VarBack('d', self.bytes * 64)
        self.E = VarBack('e', self.bytes * 64)
        if hint:
            for b in self.S + [self.D, self.E]:
                for i in range(0, self.bytes, 8):
                    import keccak
                    keccak.hints(b.get(i, 8), hint)
        p.call('w_init', self.st)
        for i in range(N):
            src_ = m.alloc(self.bytes, 'S', self.S[i], True)
            a = (i,) if par else ()
            p.call('w_add', self.st, *a, src_, 0, self.bytes)
        o = m.objs[self.st >> 40]
        self.snap = (dict(o.cells), dict(o.own))
        self.obj = o
        self.foot()

    def foot(self):
        """Which state bytes each extracted lane depends on (for all contents)."""
        m, p, o = self.m, self.prog, self.obj
        raw = VarBack('raw', self.size, 1)
        o.cells, o.own, o.back = {}, {}, raw
        out = m.alloc(self.ls, 'out')
        self.reach = {}
        for i in range(self.N):
            a = (i,) if self.par else ()
            for l in range(self.lanes):
                p.call('w_extract', self.st, *a, out, l * self.ls, self.ls)
                for t in tm.support([m.ld(out, self.ls)]):
                    nm = t.a[0]
                    if nm.startswith('raw['):
                        self.reach.setdefault(int(nm[4:].split(':')[0]), set()).add((i, l))
        o.back = None
        self.restore()
        # the snapshot itself
        big = m.alloc(self.bytes, 'out')
        for i in range(self.N):
            a = (i,) if self.par else ()
            p.call('w_extract', self.st, *a, big, 0, self.bytes)
            if not self.cmp(big, self.Sstr(i), self.bytes):
                raise ExecError('Initialize, AddBytes(0, all), ExtractBytes(0, all) is not the identity')
        self.out = out

    def restore(self):
        self.obj.cells = dict(self.snap[0])
        self.obj.own = dict(self.snap[1])

    def Sstr(self, i):
        return src(self.S[i], self.bytes)

    def cmp(self, p, want, n, c=8):
        for i, k in chunks(n, c):
            self.res['obligations'] += 1
            if not same(self.m.ld(p + i, k), want.get(i, k), 8 * k):
                return False
        return True

    def state_is(self, want, touched=None):
        """want: {instance: (Str, first byte, end byte)} of changed instances and their possibly changed range.

        Lanes that no changed state byte reaches are unchanged (see foot); all others are extracted and compared.
        """
        todo = set()
        ls = self.ls
        for i, (w, a, b) in want.items():
            if b > a:
                todo |= {(i, l) for l in range(a // ls, (b - 1) // ls + 1)}
        old = self.snap[0]
        for off, c in self.obj.cells.items():
            o = old.get(off)
            if o is not c and (o is None or o[0] != c[0] or o[1] is not c[1]):
                for k in range(off, off + c[0]):
                    todo |= self.reach.get(k, set())
        out = self.out
        for i, l in sorted(todo):
            a = (i,) if self.par else ()
            self.prog.call('w_extract', self.st, *a, out, l * ls, ls)
            w = want[i][0] if i in want else self.Sstr(i)
            self.res['obligations'] += 1
            if not same(self.m.ld(out, ls), w.get(l * ls, ls), 8 * ls):
                return False
        self.res['obligations'] += 1
        return True

    def op(self, name, inst, off, n):
        """Runs one operation from the snapshot; returns True if its effect is the specified one."""
        m, p = self.m, self.prog
        self.restore()
        a = (inst,) if self.par else ()
        d = src(self.D, self.bytes * 64)
        e = src(self.E, self.bytes * 64)
        S = self.Sstr(inst)
        W = self.bytes
        if name == 'add':
            p.call('w_add', self.st, *a, m.alloc(n, 'data', self.D, True), off, n)
            return self.state_is({inst: (S[:off] + S[off:off + n].xor(d[:n]) + S[off + n:], off, off + n)})
        if name == 'addbyte':
            p.call('w_addbyte', self.st, *a, m.alloc(1, 'data', self.D, True), off)
            return self.state_is({inst: (S[:off] + S[off:off + 1].xor(d[:1]) + S[off + 1:], off, off + 1)})
        if name == 'overwrite':
            p.call('w_overwrite', self.st, *a, m.alloc(n, 'data', self.D, True), off, n)
            return self.state_is({inst: (S[:off] + d[:n] + S[off + n:], off, off + n)})
        if name == 'zero':
            p.call('w_zero', self.st, *a, n)
            return self.state_is({inst: (bytes(n) + S[n:], 0, n)})
        if name == 'extract':
            out = m.alloc(n, 'data')
            p.call('w_extract', self.st, *a, out, off, n)
            return self.cmp(out, S[off:off + n], n) and self.state_is({})
        if name == 'extractadd':
            out = m.alloc(n, 'output')
            p.call('w_extractadd', self.st, *a, m.alloc(n, 'input', self.D, True), out, off, n)
            return self.cmp(out, S[off:off + n].xor(d[:n]), n) and self.state_is({})
        if name == 'extractadd-inplace':
            out = m.alloc(n, 'output', self.D)
            p.call('w_extractadd', self.st, *a, out, out, off, n)
            return self.cmp(out, S[off:off + n].xor(d[:n]), n)
        # all-lanes operations: off = lane offset, n = lane count
        ls, N = self.ls, self.N
        tot = ((N - 1) * off + n) * ls if n else 0
        if name in ('addlanes', 'overwritelanes'):
            p.call('w_' + name, self.st, m.alloc(tot, 'data', self.D, True), n, off)
            want = {}
            for i in range(N):
                S = self.Sstr(i)
                x = d[i * off * ls:i * off * ls + n * ls]
                want[i] = ((S[:n * ls].xor(x) if name == 'addlanes' else x) + S[n * ls:], 0, n * ls)
            return self.state_is(want)
        if name == 'extractlanes':
            out = m.alloc(tot, 'data', self.D)
            p.call('w_extractlanes', self.st, out, n, off)
            return self.cmp(out, self._lay(d[:tot], n, off, lambda i, x: self.Sstr(i)[:n * ls]), tot, 4) and self.state_is({})
        if name == 'extractaddlanes':
            out = m.alloc(tot, 'output', self.E)
            p.call('w_extractaddlanes', self.st, m.alloc(tot, 'input', self.D, True), out, n, off)
            return self.cmp(out, self._lay(e[:tot], n, off, lambda i, x: self.Sstr(i)[:n * ls].xor(
                d[i * off * ls:i * off * ls + n * ls])), tot, 4) and self.state_is({})
        if name == 'extractaddlanes-inplace':
            out = m.alloc(tot, 'output', self.D)
            p.call('w_extractaddlanes', self.st, out, out, n, off)
            return self.cmp(out, self._lay(d[:tot], n, off, lambda i, x: self.Sstr(i)[:n * ls].xor(
                d[i * off * ls:i * off * ls + n * ls])), tot, 4)
        raise ValueError(name)

    def _lay(self, buf, n, off, f):
        for i in range(self.N):
            a = i * off * self.ls
            buf = buf[:a] + f(i, None) + buf[a + n * self.ls:]
        return buf

    SINGLE = {'add': 1, 'overwrite': 2, 'zero': 3, 'addbyte': 4, 'extract': 5, 'extractadd': 6, 'extractadd-inplace': 7}
    LANES = {'addlanes': 12, 'overwritelanes': 13, 'extractlanes': 14, 'extractaddlanes': 15, 'extractaddlanes-inplace': 16}

    def fail(self, name, inst, off, n, why=''):
        """Builds the replayable violation by a script run of the same operation."""
        W, N = self.bytes, self.N
        desc = f'{self.unit["name"]}: {name} instance {inst} offset {off} length {n} {why}'
        if self.par:
            ops = [(0,), (20, 0, W)]
            ni = N * W
            no = N * W
            if name in self.SINGLE:
                ops.append((self.SINGLE[name], inst, off, n))
                ni += {'zero': 0, 'extract': 0, 'addbyte': 1}.get(name, n)
                no += n if name.startswith('extract') else 0
            else:
                ops.append((self.LANES[name], 0, off, n))
                tot = ((N - 1) * off + n) * self.ls if n else 0
                ni += tot * (2 if name == 'extractaddlanes' else 1)
                no += tot if name.startswith('extract') else 0
            ops.append((19, 0, W))
        else:
            ops = [(0,), (1, 0, W)]
            ni = no = W
            if name == 'zero':
                ops.append((3, n))
            elif name == 'addbyte':
                ops.append((4, off))
                ni += 1
            else:
                ops.append((self.SINGLE[name], off, n))
                ni += 0 if name == 'extract' else n
                no += n if name.startswith('extract') else 0
            ops.append((5, 0, W))
        r = script_case(self.unit, ops, ni, no, desc=desc)
        v = r['violation']
        if v is None and checklib.MODE == 'branch' and 'symbolic' not in why and 'depends' not in why:
            return
        v = v or {'kind': 'access', 'what': desc + ' (not reproduced by the script harness)', 'replayed': None}
        v['case'] = f'{self.unit["name"]} {name} {inst} {off} {n}'
        self.res['violation'] = v

    def run(self, cases):
        for name, inst, off, n in cases:
            self.res['paths'] += 1
            try:
                ok = self.op(name, inst, off, n) or bool(checklib.MODE)
                why = ''
            except MemViolation as e:
                ok, why = False, str(e)
            except NeedFork as e:
                if checklib.MODE != 'branch':
                    raise
                ok, why = False, 'control flow depends on data'
            if not ok:
                self.fail(name, inst, off, n, why)
                break
        self.res['sample'] = f'{len(cases)} (operation, instance, offset, length) cases, symbolic state and data'
        return self.res


def lens(W, ls, off, full):
    if full == 1:
        return range(W - off + 1)
    if full == -1:
        L = {0, 1, 7, 8, 9, 16, W - off, (ls - off) % ls + 8}
        return sorted(x for x in L if 0 <= x <= W - off)
    L = {0, 1, 2, 3, ls - 1, ls, ls + 1, 2 * ls, 2 * ls + 1, 3 * ls, 4 * ls - 1, 4 * ls, 5 * ls, 8 * ls, 8 * ls + 3, 9 * ls, 16 * ls + 5, W - off,
         W - off - 1, (ls - off) % ls, (ls - off) % ls + ls, (ls - off) % ls + 4 * ls, 17 * ls, 21 * ls}
    return sorted(x for x in L if 0 <= x <= W - off)


def access_task(unit, N, lanes, ls, par, names, insts, full, hint='', mod=(1, 0)):
    A = Access(unit, N, lanes, ls, par, hint)
    W = lanes * ls
    cases = []
    for name in names:
        for inst in insts:
            if name in Access.LANES:
                for n in range(lanes + 1):
                    for off in (sorted({n, lanes, lanes + 3}) if full != 1 else list(range(n, lanes + 1)) + [lanes + 3, 32]):
                        cases.append((name, 0, off, n))
            elif name == 'zero':
                cases += [(name, inst, 0, n) for n in range(W + 1)]
            elif name == 'addbyte':
                cases += [(name, inst, o, 1) for o in range(W)]
            else:
                cases += [(name, inst, o, n) for o in range(W + 1) if o % mod[0] == mod[1] for n in lens(W, ls, o, full)]
    return A.run(cases)


def seq_task(unit, N, lanes, ls, par, k, hint='', perms=()):
    """Pseudo-random operation sequences (fixed by the seed), symbolic in all data."""
    import random
    rng = random.Random(f'{SEED}/{unit["name"]}/{k}')
    W = lanes * ls
    ops, ni, no = [(0,)], 0, 0
    for _ in range(14):
        o = rng.randrange(W)
        n = rng.choice([rng.randrange(W - o + 1), min(W - o, rng.randrange(12)), W - o])
        i = rng.randrange(N)
        kind = rng.choice(['add', 'overwrite', 'zero', 'addbyte', 'extract', 'extractadd', 'extractadd-inplace', 'add', 'perm']
                          + (['lanes'] * 4 if par else []))
        if kind == 'perm':
            if perms:
                ops.append((rng.choice(perms),))
            continue
        if kind == 'lanes':
            code = rng.choice([12, 13, 14, 15, 16])
            c = rng.randrange(1, lanes + 1)
            b = rng.choice([c, lanes, rng.randrange(c, lanes + 8)])
            ops.append((code, 0, b, c))
            tot = ((N - 1) * b + c) * ls
            ni += tot * (2 if code == 15 else 1)
            no += tot if code >= 14 else 0
            continue
        code = Access.SINGLE[kind]
        if par:
            ops.append((code, i, o, n))
        elif kind == 'zero':
            ops.append((code, n))
        else:
            ops.append((code, o, n))
        ni += {'zero': 0, 'extract': 0, 'addbyte': 1}.get(kind, n)
        no += n if kind.startswith('extract') else 0
    ops.append((19, 0, W) if par else (5, 0, W))
    no += N * W
    r = script_case(unit, ops, ni, no, hint=hint, desc=f'{unit["name"]} sequence {k}: {ops}')
    r['sample'] = f'script {ops[:6]}...'
    return r


def perm_task(unit, N, W, ops, hint=''):
    """AddBytes to all instances, permutation, extraction of all instances."""
    r = {'obligations': 0, 'violation': None, 'paths': 0}
    for op in ops:
        sc = [(0,), (20, 0, W), op, (19, 0, W)] if N else [(0,), (1, 0, W), op, (5, 0, W)]
        n = (N or 1) * W
        q = script_case(unit, sc, n, n, hint, f'{unit["name"]} permutation script {op}')
        r['obligations'] += q['obligations']
        r['paths'] += q['paths']
        if q['violation']:
            r['violation'] = q['violation']
            break
    r['sample'] = f'permutation ops {ops} on symbolic states'
    return r
