"""x86-64 assembly front end: objdump's decoding of the assembled files, executed over symbolic values.

Only what XKCP's System V x86-64 assembly needs.  Control must be concrete unless the run allows forks.  Register
preservation (rbx, rbp, r12-r15, rsp) is checked when a function returns.
"""
import re
import subprocess
import build
import terms as tm
from mem import ExecError, MemViolation, BytesBack, BASE, SHIFT, OFFM
import ll

M64 = (1 << 64) - 1
RN = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15']
REGS = {}
for _i, _n in enumerate(RN):
    REGS[_n] = (_i, 64, 0)
    if _i < 8:
        REGS['e' + _n[1:]] = (_i, 32, 0)
        REGS[_n[1:]] = (_i, 16, 0)
        REGS[_n[1:] + 'l' if _i >= 4 else _n[1] + 'l'] = (_i, 8, 0)
        if _i < 4:
            REGS[_n[1] + 'h'] = (_i, 8, 8)
    else:
        REGS[_n + 'd'] = (_i, 32, 0)
        REGS[_n + 'w'] = (_i, 16, 0)
        REGS[_n + 'b'] = (_i, 8, 0)
SIZES = {'BYTE': 1, 'WORD': 2, 'DWORD': 4, 'QWORD': 8, 'XMMWORD': 16, 'YMMWORD': 32, 'ZMMWORD': 64}
RET = 0x7FFF0000
OBJDUMP = 'objdump'


def link(objs, exe):
    import os
    tmp = exe + f'.{os.getpid()}'
    build.run(['ld', '-static', '-z', 'noexecstack', '-e', '0', '--no-warnings', '-o', tmp, *objs])
    os.rename(tmp, exe)


def attach(prog, exe):
    prog.asm = Asm(exe)


def _low(v, w):
    if type(v) is int:
        return v & ((1 << w) - 1)
    return tm.ext(v, 0, w) if v.w != w else v


class State:
    __slots__ = ('r', 'v', 'k', 'm', 'fl', 'cf', 'pc', 'asm', 'objs')


class Asm:
    def __init__(self, exe):
        self.exe = exe
        self.sections = []
        out = build.run(['readelf', '-SW', exe])
        data = open(exe, 'rb').read()
        for m in re.finditer(r'\]\s+(\.\S+)\s+(?:PROGBITS|NOBITS)\s+([0-9a-f]+)\s+([0-9a-f]+)\s+([0-9a-f]+)\s+\S+\s+(\w*)', out):
            name, addr, off, size, fl = m.group(1), int(m.group(2), 16), int(m.group(3), 16), int(m.group(4), 16), m.group(5)
            if 'A' in fl:
                self.sections.append((name, addr, size, data[off:off + size], 'W' in fl))
        self.syms = {}
        for l in build.run(['nm', exe]).splitlines():
            p = l.split()
            if len(p) == 3 and p[1] in 'Tt':
                self.syms[p[2]] = (int(p[0], 16), p[1])
        self.code = {}
        self._load(build.run([OBJDUMP, '-d', '-M', 'intel', '--no-show-raw-insn', exe]))
        self.fn = {}
        self.executed = set()

    def _load(self, txt, override=False):
        rows = []
        for l in txt.splitlines():
            m = re.match(r'\s+([0-9a-f]+):\t(.*)$', l)
            if m:
                rows.append((int(m.group(1), 16), m.group(2).split('#')[0].split('<')[0].strip()))
        for i, (a, t) in enumerate(rows):
            nxt = rows[i + 1][0] if i + 1 < len(rows) else a + 16
            if override or a not in self.code:
                self.code[a] = (t, nxt)

    def fetch(self, a):
        f = self.fn.get(a)
        if f is None:
            c = self.code.get(a)
            if c is None:
                if not any(s[0] == '.text' and s[1] <= a < s[1] + s[2] for s in self.sections):
                    raise MemViolation(f'jump to {a:#x}, outside the code')
                self._load(build.run([OBJDUMP, '-d', '-M', 'intel', '--no-show-raw-insn', f'--start-address={a}',
                                      f'--stop-address={a + 4096}', self.exe]), True)
                c = self.code[a]
            f = self.fn[a] = (compile_insn(self, a, c[0], c[1]), c[1])
        return f

    def install(self, prog):
        for n, (a, k) in self.syms.items():
            if k == 'T' and n not in prog.mod.fsrc:
                prog.hook(n, lambda m, *args, a=a, n=n: self.call(m, a, args, n))

    def xlate(self, s, addr):
        """Address in the linked image -> pointer of the executor."""
        for name, a, size, data, w in self.sections:
            if a <= addr <= a + size:
                p = s.objs.get(name)
                if p is None:
                    p = s.objs[name] = s.m.alloc(size, name, BytesBack(data), not w)
                return p + addr - a
        return addr

    def call(self, m, addr, args, name):
        s = State()
        s.m = m
        s.asm = self
        if not hasattr(m, 'asmobjs'):
            m.asmobjs = {}
        s.objs = m.asmobjs
        self.nundef = getattr(self, 'nundef', 0)
        u = lambda x: tm.var(f'undef:{x}', 64)
        s.r = [u('asm.' + n) for n in RN]
        s.v = [[u(f'asm.v{i}.{j}') for j in range(8)] for i in range(32)]
        s.k = [0] * 8
        s.fl = None
        s.cf = None
        st = s.objs.get('stack')
        if st is None:
            st = s.objs['stack'] = m.alloc(1 << 16, 'stack')
        m.objs[st >> SHIFT].cells.clear()
        m.objs[st >> SHIFT].own.clear()
        sp = st + (1 << 15) - 8
        m.st(sp, 8, RET)
        s.r[4] = sp
        for i, a in zip((7, 6, 2, 1, 8, 9), args):
            s.r[i] = a
        if len(args) > 6:
            for i, a in enumerate(args[6:]):
                m.st(sp + 8 + 8 * i, 8, a)
        saved = [(i, s.r[i]) for i in (3, 5, 12, 13, 14, 15)]
        pc = addr
        fetch = self.fn
        n = 0
        while pc != RET:
            f = fetch.get(pc)
            if f is None:
                f = self.fetch(pc)
            r = f[0](s)
            pc = f[1] if r is None else r
            n += 1
            if n > 5000000:
                raise ExecError('assembly function does not end')
        m.steps += n
        self.executed.add(name)
        if s.r[4] != sp + 8:
            raise MemViolation(f'{name} returns with a changed stack pointer')
        for i, v in saved:
            if s.r[i] is not v:
                raise MemViolation(f'{name} does not preserve {RN[i]}')
        return s.r[0]


# ---------------------------------------------------------------- operands

class Op:
    """kind: 'r' (gpr), 'v' (vector), 'k' (mask), 'i' (imm), 'm' (memory)."""
    __slots__ = ('kind', 'i', 'w', 'sh', 'val', 'addr', 'mask', 'z')


def parse_op(asm, t, nxt):
    o = Op()
    o.mask = None
    o.z = False
    t = t.strip()
    m = re.search(r'\{k(\d)\}(\{z\})?', t)
    if m:
        o.mask = int(m.group(1))
        o.z = bool(m.group(2))
        t = t[:m.start()].strip()
    if t in REGS:
        o.kind = 'r'
        o.i, o.w, o.sh = REGS[t]
        return o
    m = re.match(r'([xyz])mm(\d+)$', t)
    if m:
        o.kind = 'v'
        o.i = int(m.group(2))
        o.w = {'x': 128, 'y': 256, 'z': 512}[m.group(1)]
        return o
    m = re.match(r'k(\d)$', t)
    if m:
        o.kind = 'k'
        o.i = int(m.group(1))
        return o
    m = re.match(r'(?:(\w+) PTR )?(?:\w\w:)?\[(.*)\](?:\{1to\d+\})?$', t)
    if m:
        o.kind = 'm'
        o.w = SIZES[m.group(1)] * 8 if m.group(1) else 0
        parts = re.findall(r'[+-]?[^+-]+', m.group(2))
        regs = []
        disp = 0
        rip = False
        vidx = None
        for p in parts:
            neg = p[0] == '-'
            p = p.lstrip('+-')
            if p == 'rip':
                rip = True
                continue
            q = p.split('*')
            if q[0] in REGS:
                regs.append((REGS[q[0]][0], int(q[1]) if len(q) > 1 else 1))
            elif re.match(r'[xyz]mm\d+$', q[0]):
                vidx = (int(q[0][3:]), int(q[1]) if len(q) > 1 else 1, q[0][0])
            else:
                d = int(p, 16)
                disp += -d if neg else d
        o.val = vidx
        if rip:
            tgt = (disp + nxt) & M64

            def addr(s, tgt=tgt):
                return asm.xlate(s, tgt)
        elif len(regs) == 1 and regs[0][1] == 1:
            def addr(s, r=regs[0][0], disp=disp):
                b = s.r[r]
                if type(b) is not int:
                    raise MemViolation('symbolic address')
                return (b + disp) & M64
        else:
            def addr(s, regs=tuple(regs), disp=disp):
                b = disp
                for r, k in regs:
                    v = s.r[r]
                    if type(v) is not int:
                        raise MemViolation('symbolic address')
                    b += v * k
                return b & M64
        o.addr = addr
        return o
    if re.match(r'-?(0x)?[0-9a-f]+$', t):
        o.kind = 'i'
        o.val = int(t, 16)
        return o
    raise ExecError(f'operand {t}')


def rd(o, w):
    """Getter of a w-bit operand value."""
    if o.kind == 'r':
        i, sh = o.i, o.sh
        if w == 64:
            return lambda s: s.r[i]
        m = (1 << w) - 1

        def g(s):
            v = s.r[i]
            return (v >> sh) & m if type(v) is int else tm.ext(v, sh, w)
        return g
    if o.kind == 'i':
        v = o.val & ((1 << w) - 1)
        return lambda s: v
    if o.kind == 'm':
        a, n = o.addr, w // 8
        return lambda s: s.m.ld(a(s), n)
    raise ExecError('operand kind')


def wr(o, w):
    if o.kind == 'r':
        i, sh = o.i, o.sh
        if w == 64:
            def f(s, v):
                s.r[i] = v
        elif w == 32:
            def f(s, v):
                s.r[i] = v if type(v) is int else tm.zext(v, 32, 64)
        else:
            def f(s, v):
                old = s.r[i]
                if type(old) is int and type(v) is int:
                    m = ((1 << w) - 1) << sh
                    s.r[i] = (old & ~m & M64) | (v << sh)
                else:
                    segs = [(tm.ext(old, 0, sh) if type(old) is not int else old & ((1 << sh) - 1), sh)] if sh else []
                    hi = 64 - sh - w
                    segs += [(v, w), ((old >> (sh + w)) if type(old) is int else tm.ext(old, sh + w, hi), hi)]
                    s.r[i] = tm.cat(segs)
        return f
    if o.kind == 'm':
        a, n = o.addr, w // 8

        def f(s, v):
            s.m.st(a(s), n, v)
        return f
    raise ExecError('write operand')


def opw(ops):
    for o in ops:
        if o.kind in ('r', 'm') and o.w:
            return o.w
    raise ExecError('operand size')


# ---------------------------------------------------------------- flags

def cond(s, c):
    """Value (0/1 or 1-bit term) of condition c."""
    neg = False
    if c in ('ne', 'nz', 'ae', 'nb', 'nc', 'a', 'ns', 'ge', 'g', 'no'):
        neg = True
        c = {'ne': 'e', 'nz': 'e', 'ae': 'b', 'nb': 'b', 'nc': 'b', 'a': 'be', 'ns': 's', 'ge': 'l', 'g': 'le', 'no': 'o'}[c]
    c = {'z': 'e', 'c': 'b', 'na': 'be'}.get(c, c)
    if s.fl is None:
        raise ExecError('undefined flags')
    kind, a, b, res, w = s.fl
    if c == 'e':
        v = ll.icmp('eq', res, 0, w)
    elif c == 'b':
        v = carry(s)
    elif c == 'be':
        x, y = carry(s), ll.icmp('eq', res, 0, w)
        v = x | y if type(x) is int and type(y) is int else tm.or_(x, y, 1)
    elif c == 's':
        v = tm.ext(res, w - 1, 1) if type(res) is not int else res >> (w - 1)
    elif c in ('l', 'le', 'o'):
        if kind in ('sub', 'dec') and c == 'l':
            v = ll.icmp('slt', a, b, w)
        elif kind in ('sub', 'dec') and c == 'le':
            v = ll.icmp('sle', a, b, w)
        elif kind == 'logic':
            sv = tm.ext(res, w - 1, 1) if type(res) is not int else res >> (w - 1)
            v = sv if c == 'l' else tm.or_(sv, ll.icmp('eq', res, 0, w), 1) if c == 'le' else 0
        else:
            raise ExecError(f'condition {c} after {kind}')
    else:
        raise ExecError(f'condition {c}')
    if neg:
        v = v ^ 1 if type(v) is int else tm.xor(v, 1, 1)
    return v


def carry(s):
    kind, a, b, res, w = s.fl
    if kind in ('inc', 'dec'):
        return s.cf
    if kind == 'sub':
        return ll.icmp('ult', a, b, w)
    if kind == 'add':
        return ll.icmp('ult', res, a, w)
    if kind == 'logic':
        return 0
    if kind == 'shr':
        return b
    raise ExecError(f'carry after {kind}')


# ---------------------------------------------------------------- instructions

def lanes32(v):
    out = []
    for x in v:
        out.append(tm.ext(x, 0, 32) if type(x) is not int else x & 0xFFFFFFFF)
        out.append(tm.ext(x, 32, 32) if type(x) is not int else x >> 32)
    return out


def lanes64(v):
    return [tm.cat([(v[i], 32), (v[i + 1], 32)]) for i in range(0, len(v), 2)]


def vget(o, n):
    """Getter of n 64-bit lanes."""
    if o.kind == 'v':
        i = o.i
        return lambda s: s.v[i][:n]
    if o.kind == 'm':
        a = o.addr
        if o.w == 64 and n > 1:      # broadcast
            return lambda s: [s.m.ld(a(s), 8)] * n

        def g(s):
            p = a(s)
            ld = s.m.ld
            return [ld(p + 8 * j, 8) for j in range(n)]
        return g
    raise ExecError('vector operand')


def vset(o, n):
    i, k, z = o.i, o.mask, o.z

    def f(s, v):
        if k is not None:
            mk = s.k[k]
            old = s.v[i]
            v = [v[j] if mk >> j & 1 else (0 if z else old[j]) for j in range(n)]
        s.v[i] = v + [0] * (8 - n)
    return f


def lane_op(fn):
    return lambda a, b: [fn(x, y, 64) for x, y in zip(a, b)]


def _andn(x, y, w):
    return tm.and_(tm.xor(x, M64, 64), y, 64)


def _shl(x, n, w):
    return 0 if n > 63 else ll.shl_(x, n, 64)


def _shr(x, n, w):
    return 0 if n > 63 else ll.lshr_(x, n, 64)


def _rol(x, n, w):
    n &= w - 1
    if type(x) is int:
        return ((x << n) | (x >> (w - n))) & ((1 << w) - 1)
    return tm.rotl(x, n, w)


VOPS = {'vpxor': tm.xor, 'vpxorq': tm.xor, 'vpxord': tm.xor, 'vxorps': tm.xor, 'vxorpd': tm.xor, 'vpor': tm.or_, 'vporq': tm.or_,
        'vpord': tm.or_, 'vpand': tm.and_, 'vpandq': tm.and_, 'vpandd': tm.and_, 'vpandn': _andn, 'vpandnq': _andn,
        'vpandnd': _andn, 'vpaddq': lambda a, b, w: ll.add_(a, b, 64), 'vprolvq': _rol, 'vpsllvq': _shl, 'vpsrlvq': _shr,
        'vprorvq': lambda a, b, w: _rol(a, (64 - b) & 63, 64)}


def compile_insn(asm, addr, text, nxt):
    text = re.sub(r'^((rep|repz|repnz|data16|cs|notrack|lock|bnd)\s+)+', '', text)
    mn, _, rest = text.partition(' ')
    rest = rest.strip()
    if mn in ('nop', 'vzeroupper', 'endbr64', 'nopw', 'nopl', 'cld'):
        return lambda s: None
    if mn == 'xchg' and rest == 'ax,ax':
        return lambda s: None
    if mn == 'ret':
        def f(s):
            p = s.r[4]
            s.r[4] = p + 8
            a = s.m.ld(p, 8)
            if type(a) is not int:
                raise MemViolation('return address overwritten')
            return a
        return f
    if mn[0] == 'j' or mn == 'call':
        if re.match(r'[0-9a-f]+$', rest):
            tgt = int(rest, 16)
            target = lambda s: tgt
        else:
            o = parse_op(asm, rest, nxt)
            g = rd(o, 64)

            def target(s):
                a = g(s)
                if type(a) is not int:
                    raise MemViolation('symbolic jump target')
                if a >= BASE:
                    t = s.objs.get('.text')
                    a = a - t + [x[1] for x in asm.sections if x[0] == '.text'][0]
                return a
        if mn == 'jmp':
            return target
        if mn == 'call':
            def f(s):
                p = s.r[4] - 8
                s.r[4] = p
                s.m.st(p, 8, nxt)
                return target(s)
            return f
        cc = mn[1:]

        def f(s):
            c = cond(s, cc)
            if type(c) is not int:
                c = s.m.branch(c)
            return tgt if c else None
        return f
    ops = [parse_op(asm, t, nxt) for t in split_ops(rest)] if rest else []
    if mn[0] == 'v' or mn[0] == 'k':
        return vector(mn, ops)
    if mn == 'push':
        g = rd(ops[0], 64)

        def f(s):
            v = g(s)
            p = s.r[4] - 8
            s.r[4] = p
            s.m.st(p, 8, v)
        return f
    if mn == 'pop':
        st = wr(ops[0], 64)

        def f(s):
            p = s.r[4]
            v = s.m.ld(p, 8)
            s.r[4] = p + 8
            st(s, v)
        return f
    if mn == 'lea':
        a = ops[1].addr
        w = ops[0].w
        st = wr(ops[0], w)
        return lambda s: st(s, a(s) & ((1 << w) - 1))
    if mn in ('mov', 'movabs'):
        w = opw(ops)
        g, st = rd(ops[1], w), wr(ops[0], w)
        if ops[0].kind == 'r' and w == 64:
            i = ops[0].i
            if ops[1].kind == 'r':
                j = ops[1].i

                def f(s):
                    s.r[i] = s.r[j]
                return f

            def f(s):
                s.r[i] = g(s)
            return f
        return lambda s: st(s, g(s))
    if mn in ('movzx', 'movsx', 'movsxd'):
        w, ws = ops[0].w, ops[1].w
        g, st = rd(ops[1], ws), wr(ops[0], w)
        if mn == 'movzx':
            return lambda s: st(s, tm.zext(g(s), ws, w))
        return lambda s: st(s, tm.sext(g(s), ws, w))
    if mn == 'xchg':
        w = opw(ops)
        g0, g1, s0, s1 = rd(ops[0], w), rd(ops[1], w), wr(ops[0], w), wr(ops[1], w)

        def f(s):
            a, b = g0(s), g1(s)
            s0(s, b)
            s1(s, a)
        return f
    if mn.startswith('cmov'):
        w = ops[0].w
        g0, g, st = rd(ops[0], w), rd(ops[1], w), wr(ops[0], w)
        cc = mn[4:]

        def f(s):
            c = cond(s, cc)
            a, b = g(s), g0(s)
            st(s, (a if c else b) if type(c) is int else tm.ite(c, a, b, w))
        return f
    if mn in ('xor', 'and', 'or', 'test'):
        w = opw(ops)
        g0, g1 = rd(ops[0], w), rd(ops[1], w)
        fn = {'xor': tm.xor, 'and': tm.and_, 'or': tm.or_, 'test': tm.and_}[mn]
        if mn == 'test':
            def f(s):
                s.fl = ('logic', 0, 0, fn(g0(s), g1(s), w), w)
            return f
        st = wr(ops[0], w)
        if mn == 'xor' and ops[0].kind == 'r' and ops[1].kind == 'r' and ops[0].i == ops[1].i and ops[0].sh == ops[1].sh:
            def f(s):
                st(s, 0)
                s.fl = ('logic', 0, 0, 0, w)
            return f

        def f(s):
            r = fn(g0(s), g1(s), w)
            st(s, r)
            s.fl = ('logic', 0, 0, r, w)
        return f
    if mn == 'not':
        w = opw(ops)
        g, st = rd(ops[0], w), wr(ops[0], w)
        mk = (1 << w) - 1
        return lambda s: st(s, tm.xor(g(s), mk, w))
    if mn in ('add', 'sub', 'cmp', 'inc', 'dec', 'neg'):
        w = opw(ops)
        g0 = rd(ops[0], w)
        if mn in ('inc', 'dec'):
            st = wr(ops[0], w)

            def f(s):
                a = g0(s)
                cf = carry(s) if s.fl is not None and s.fl[0] in ('sub', 'add', 'logic', 'shr', 'inc', 'dec') else None
                r = ll.add_(a, 1 if mn == 'inc' else (1 << w) - 1, w)
                st(s, r)
                s.cf = cf
                s.fl = (mn, a, 1, r, w)
            return f
        if mn == 'neg':
            st = wr(ops[0], w)

            def f(s):
                a = g0(s)
                r = ll.sub_(0, a, w)
                st(s, r)
                s.fl = ('sub', 0, a, r, w)
            return f
        g1 = rd(ops[1], w)
        if mn == 'cmp':
            def f(s):
                a, b = g0(s), g1(s)
                s.fl = ('sub', a, b, ll.sub_(a, b, w), w)
            return f
        st = wr(ops[0], w)
        fn = ll.add_ if mn == 'add' else ll.sub_

        def f(s):
            a, b = g0(s), g1(s)
            r = fn(a, b, w)
            st(s, r)
            s.fl = (mn, a, b, r, w)
        return f
    if mn in ('rol', 'ror', 'shl', 'shr', 'sal', 'sar'):
        w = opw(ops)
        g0, st = rd(ops[0], w), wr(ops[0], w)
        g1 = rd(ops[1], 8) if len(ops) > 1 else (lambda s: 1)

        def f(s):
            n = g1(s)
            if type(n) is not int:
                raise ExecError('symbolic shift count')
            n &= 63 if w == 64 else 31
            a = g0(s)
            if n == 0:
                return
            if mn == 'rol' or mn == 'ror':
                st(s, _rol(a, n % w if mn == 'rol' else (w - n % w) % w, w))
                return
            if mn in ('shl', 'sal'):
                r = ll.shl_(a, n, w)
                c = (a >> (w - n)) & 1 if type(a) is int else tm.ext(a, w - n, 1)
            elif mn == 'shr':
                r = ll.lshr_(a, n, w)
                c = (a >> (n - 1)) & 1 if type(a) is int else tm.ext(a, n - 1, 1)
            else:
                r = tm.ashr(a, n, w)
                c = (a >> (n - 1)) & 1 if type(a) is int else tm.ext(a, n - 1, 1)
            st(s, r)
            s.fl = ('shr', a, c, r, w)
        return f
    if mn in ('shld', 'shrd', 'rorx'):
        w = ops[0].w
        st = wr(ops[0], w)
        if mn == 'rorx':
            g, n = rd(ops[1], w), ops[2].val % w
            return lambda s: st(s, _rol(g(s), (w - n) % w, w))
        g0, g1 = rd(ops[0], w), rd(ops[1], w)
        n = ops[2].val % w

        def f(s):
            a, b = g0(s), g1(s)
            if n:
                if mn == 'shrd':
                    a, b, k = b, a, w - n
                else:
                    k = n
                if a is b or (type(a) is int and type(b) is int and a == b):
                    r = _rol(a, k, w)
                else:
                    r = tm.or_(ll.shl_(a, k, w), ll.lshr_(b, w - k, w), w)
                st(s, r)
            s.fl = None
        return f
    if mn == 'andn':
        w = ops[0].w
        g1, g2, st = rd(ops[1], w), rd(ops[2], w), wr(ops[0], w)

        def f(s):
            r = tm.and_(tm.xor(g1(s), (1 << w) - 1, w), g2(s), w)
            st(s, r)
            s.fl = ('logic', 0, 0, r, w)
        return f
    if mn == 'imul' and len(ops) == 3:
        w = ops[0].w
        g, n, st = rd(ops[1], w), ops[2].val & ((1 << w) - 1), wr(ops[0], w)

        def f(s):
            st(s, ll.mul_(g(s), n, w))
            s.fl = None
        return f
    if mn == 'bswap':
        w = ops[0].w
        g, st = rd(ops[0], w), wr(ops[0], w)
        return lambda s: st(s, ll.intr_bswap(w, g(s)))
    t = f'{addr:#x}: {text}'

    def f(s):
        raise ExecError('unsupported instruction ' + t)
    return f


def split_ops(t):
    out, d, cur = [], 0, ''
    for c in t:
        if c == '[':
            d += 1
        elif c == ']':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out


def vector(mn, ops):
    if mn in ('kshiftlw', 'kshiftrw', 'kshiftlb', 'kshiftrb'):
        d, a, n = ops[0].i, ops[1].i, ops[2].val
        mk = 0xFFFF if mn[-1] == 'w' else 0xFF

        def f(s):
            s.k[d] = (s.k[a] << n) & mk if 'l' in mn[5:7] else (s.k[a] & mk) >> n
        return f
    if mn in ('kxnorw', 'kxnorb', 'kandw', 'korw', 'kxorw', 'kandb', 'korb', 'kxorb'):
        d, a, b = ops[0].i, ops[1].i, ops[2].i
        mk = 0xFFFF if mn[-1] == 'w' else 0xFF
        fn = {'kxnor': lambda x, y: ~(x ^ y), 'kand': lambda x, y: x & y, 'kor': lambda x, y: x | y,
              'kxor': lambda x, y: x ^ y}[mn[:-1]]

        def f(s):
            s.k[d] = fn(s.k[a], s.k[b]) & mk
        return f
    if mn in ('kmovw', 'kmovb', 'kmovq', 'kmovd'):
        mk = {'w': 0xFFFF, 'b': 0xFF, 'd': 0xFFFFFFFF, 'q': M64}[mn[-1]]
        if ops[0].kind == 'k' and ops[1].kind == 'k':
            def f(s):
                s.k[ops[0].i] = s.k[ops[1].i] & mk
            return f
        if ops[0].kind == 'k':
            g = rd(ops[1], 32 if ops[1].kind == 'r' and mn[-1] in 'wbd' else {'w': 16, 'b': 8, 'd': 32, 'q': 64}[mn[-1]])

            def f(s):
                v = g(s)
                if type(v) is not int:
                    raise ExecError('symbolic mask register')
                s.k[ops[0].i] = v & mk
            return f
    d = ops[0]
    if mn in ('vmovdqu', 'vmovdqa', 'vmovdqu64', 'vmovdqa64', 'vmovdqu32', 'vmovdqa32', 'vmovups', 'vmovaps', 'vmovupd'):
        src = ops[1]
        w = d.w if d.kind == 'v' else src.w
        n = w // 64
        if (d.mask is not None) and mn.endswith('32'):
            raise ExecError(mn)
        aligned = mn.startswith('vmovdqa') or mn.startswith('vmova')
        if d.kind == 'v':
            st = vset(d, n)
            if src.kind == 'v':
                g = vget(src, n)
                return lambda s: st(s, g(s))
            a, k = src.addr, d.mask

            def f(s):
                p = a(s)
                if aligned and p & (w // 8 - 1):
                    raise MemViolation(f'{mn} at a misaligned address')
                mk = s.k[k] if k is not None else 0xFF
                st(s, [s.m.ld(p + 8 * j, 8) if mk >> j & 1 else 0 for j in range(n)])
            return f
        a, i, k = d.addr, src.i, d.mask

        def f(s):
            p = a(s)
            if aligned and p & (w // 8 - 1):
                raise MemViolation(f'{mn} at a misaligned address')
            mk = s.k[k] if k is not None else 0xFF
            v = s.v[i]
            for j in range(n):
                if mk >> j & 1:
                    s.m.st(p + 8 * j, 8, v[j])
        return f
    if mn == 'vmovq':
        if d.kind == 'v':
            if ops[1].kind == 'v':
                return lambda s: s.v.__setitem__(d.i, [s.v[ops[1].i][0]] + [0] * 7)
            g = rd(ops[1], 64)
            return lambda s: s.v.__setitem__(d.i, [g(s)] + [0] * 7)
        if ops[1].kind == 'v':
            st = wr(d, 64)
            return lambda s: st(s, s.v[ops[1].i][0])
    n = d.w // 64 if d.kind == 'v' else 0
    if mn in VOPS:
        fn = VOPS[mn]
        g1, g2, st = vget(ops[1], n), vget(ops[2], n), vset(d, n)
        if mn in ('vpxor', 'vpxorq', 'vpxord') and ops[1].kind == ops[2].kind == 'v' and ops[1].i == ops[2].i:
            return lambda s: st(s, [0] * n)
        if mn in ('vprolvq', 'vpsllvq', 'vpsrlvq', 'vprorvq'):
            def f(s):
                b = g2(s)
                if any(type(x) is not int for x in b):
                    raise ExecError('symbolic shift counts')
                st(s, [fn(x, y, 64) for x, y in zip(g1(s), b)])
            return f
        return lambda s: st(s, [fn(x, y, 64) for x, y in zip(g1(s), g2(s))])
    if mn in ('vprolq', 'vpsllq', 'vpsrlq', 'vprorq') and ops[2].kind == 'i':
        c = ops[2].val
        g1, st = vget(ops[1], n), vset(d, n)
        fn = {'vprolq': _rol, 'vpsllq': _shl, 'vpsrlq': _shr, 'vprorq': lambda a, b, w: _rol(a, (64 - b) & 63, 64)}[mn]
        return lambda s: st(s, [fn(x, c, 64) for x in g1(s)])
    if mn == 'vpsrldq':
        c = ops[2].val
        g1, st = vget(ops[1], n), vset(d, n)

        def f(s):
            v = g1(s)
            out = []
            for j in range(0, n, 2):
                segs = [(v[j], 64), (v[j + 1], 64)]
                x = tm.cat(segs)
                if type(x) is int:
                    x >>= 8 * c
                else:
                    x = tm.lshr(x, 8 * c, 128)
                out += [tm.ext(x, 0, 64) if type(x) is not int else x & M64, tm.ext(x, 64, 64) if type(x) is not int else x >> 64]
            st(s, out)
        return f
    if mn == 'vpshufd':
        c = ops[2].val
        g1, st = vget(ops[1], n), vset(d, n)

        def f(s):
            v = lanes32(g1(s))
            st(s, lanes64([v[(j & ~3) + ((c >> (2 * (j & 3))) & 3)] for j in range(2 * n)]))
        return f
    if mn in ('vpcmpeqd', 'vpcmpeqq') and d.kind == 'v':
        g1, g2, st = vget(ops[1], n), vget(ops[2], n), vset(d, n)
        if ops[1].kind == ops[2].kind == 'v' and ops[1].i == ops[2].i:
            return lambda s: st(s, [M64] * n)

        def f(s):
            a, b = g1(s), g2(s)
            if mn == 'vpcmpeqd':
                a, b = lanes32(a), lanes32(b)
                st(s, lanes64([tm.sext(ll.icmp('eq', x, y, 32), 1, 32) for x, y in zip(a, b)]))
            else:
                st(s, [tm.sext(ll.icmp('eq', x, y, 64), 1, 64) for x, y in zip(a, b)])
        return f
    if mn == 'vpblendd':
        c = ops[3].val
        g1, g2, st = vget(ops[1], n), vget(ops[2], n), vset(d, n)

        def f(s):
            a, b = g1(s), g2(s)
            if all((c >> (2 * j)) & 3 in (0, 3) for j in range(n)):
                st(s, [b[j] if (c >> (2 * j)) & 1 else a[j] for j in range(n)])
            else:
                a, b = lanes32(a), lanes32(b)
                st(s, lanes64([b[j] if c >> j & 1 else a[j] for j in range(2 * n)]))
        return f
    if mn == 'vpblendmq':
        g1, g2 = vget(ops[1], n), vget(ops[2], n)
        k, i, z = d.mask, d.i, d.z

        def f(s):
            a, b = g1(s), g2(s)
            mk = s.k[k] if k is not None else 0xFF
            s.v[i] = [b[j] if mk >> j & 1 else (0 if z else a[j]) for j in range(n)] + [0] * (8 - n)
        return f
    if mn in ('vpternlogq', 'vpternlogd'):
        c = ops[3].val
        g0, g1, g2, st = vget(Vo(d), n), vget(ops[1], n), vget(ops[2], n), vset(d, n)
        if mn[-1] == 'd' and d.mask is not None:
            raise ExecError(mn)
        return lambda s: st(s, [ll.tern(x, y, z, c, 64) for x, y, z in zip(g0(s), g1(s), g2(s))])
    if mn in ('vpermq', 'vpermpd'):
        st = vset(d, n)
        if ops[2].kind == 'i':
            c = ops[2].val
            g = vget(ops[1], n)

            def f(s):
                v = g(s)
                st(s, [v[(j & ~3) + ((c >> (2 * (j & 3))) & 3)] for j in range(n)])
            return f
        gi, g = vget(ops[1], n), vget(ops[2], n)

        def f(s):
            ix, v = gi(s), g(s)
            st(s, [v[x & (n - 1)] for x in ix])
        return f
    if mn == 'vpbroadcastq':
        g, st = (vget(ops[1], 1), vset(d, n)) if ops[1].kind == 'v' else (None, vset(d, n))
        if g is None:
            gs = rd(ops[1], 64)
            return lambda s: st(s, [gs(s)] * n)
        return lambda s: st(s, g(s) * n)
    if mn == 'vpgatherdq' and len(ops) == 3:
        vi, sc, _ = ops[1].val
        a, mk, di = ops[1].addr, ops[2].i, d.i

        def f(s):
            base = a(s)
            idx = lanes32(s.v[vi])
            out = []
            for j in range(n):
                mm = s.v[mk][j]
                if type(mm) is not int or type(idx[j]) is not int:
                    raise MemViolation('symbolic gather')
                out.append(s.m.ld((base + ll._sx32(idx[j]) * sc) & M64, 8) if mm >> 63 else s.v[di][j])
            s.v[di] = out + [0] * (8 - n)
            s.v[mk] = [0] * 8
        return f
    if mn == 'vpgatherdq' and len(ops) == 2:
        vi, sc, _ = ops[1].val
        a, k, di = ops[1].addr, d.mask, d.i

        def f(s):
            base = a(s)
            idx = lanes32(s.v[vi])
            s.v[di] = [s.m.ld((base + ll._sx32(idx[j]) * sc) & M64, 8) if s.k[k] >> j & 1 else s.v[di][j]
                       for j in range(n)] + [0] * (8 - n)
            s.k[k] = 0
        return f

    def f(s):
        raise ExecError(f'unsupported vector instruction {mn}')
    return f


def Vo(d):
    o = Op()
    o.kind = 'v'
    o.i = d.i
    o.w = d.w
    return o
