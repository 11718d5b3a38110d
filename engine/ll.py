"""LLVM IR (text, clang -O1) to Python: every function becomes a Python function over symbolic values."""
import re
import terms as tm
from mem import Mem, ExecError, MemViolation

TOK = re.compile(r'c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@!#$][-\w.$"]+|[%@]"[^"]*"|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+'
                 r'|[A-Za-z_][\w.]*|\.\.\.|[\[\]{}()<>,=*:|]')


class Ty:
    __slots__ = ('k', 'n', 'e', 'fs', 'size', 'align')
    # k: 'i' (n bits), 'p', 'v' (vector n x e), 'a' (array), 's' (struct), 'void', 'f'

    def __init__(self, k, n=0, e=None, fs=None, packed=False):
        self.k, self.n, self.e, self.fs = k, n, e, fs
        if k == 'i':
            self.size = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else (n + 7) // 8
            self.align = min(self.size, 16)
        elif k == 'p':
            self.size = self.align = 8
        elif k == 'f':
            self.size = self.align = n // 8
        elif k == 'v':
            self.size = (n * (e.n if e.k == 'i' else 64) + 7) // 8
            self.align = self.size
        elif k == 'a':
            self.size = n * e.size
            self.align = e.align
        elif k == 's':
            off = 0
            al = 1
            offs = []
            for f in fs:
                if not packed:
                    off = (off + f.align - 1) // f.align * f.align
                    al = max(al, f.align)
                offs.append(off)
                off += f.size
            self.n = offs
            self.size = (off + al - 1) // al * al
            self.align = al
        else:
            self.size = 0
            self.align = 1


VOID = Ty('void')
PTR = Ty('p')
ITYS = {}


def ity(n):
    t = ITYS.get(n)
    if t is None:
        t = ITYS[n] = Ty('i', n)
    return t


PARAM_ATTRS = set('''noundef nonnull nocapture readonly writeonly readnone zeroext signext noalias returned inreg nest immarg
 nofree dead_on_unwind writable swiftself noext allocalign allocptr'''.split())


class P:
    """Token cursor with type/operand parsing."""

    def __init__(self, mod, text):
        self.mod = mod
        self.t = TOK.findall(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise ExecError(f'IR parse: expected {x} in {" ".join(self.t)[:200]} at {self.i}')

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            return ity(int(x[1:]))
        if x == 'ptr':
            return PTR
        if x == 'void':
            return VOID
        if x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return Ty('a', n, e)
        if x == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type())
                    self.accept(',')
                self.expect('>')
                return Ty('s', fs=fs, packed=True)
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            return Ty('v', n, e)
        if x == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            return Ty('s', fs=fs)
        if x[0] == '%':
            return self.mod.types[x]
        if x in ('double', 'float'):
            return Ty('f', 64 if x == 'double' else 32)
        if x in ('metadata', 'label', 'token'):
            return VOID
        raise ExecError(f'IR type {x}')

    def attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.i += 1
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'byval', 'sret',
                       'memory', 'initializes', 'addrspace'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
                elif x == 'align':
                    self.i += 1
            else:
                return

    def value(self, ty):
        """Returns a Python expression string."""
        x = self.next()
        c = x[0]
        if c == '%':
            return self.mod.local(x)
        if c == '@':
            return self.mod.glob(x)
        if x == 'c' or x.startswith('c"'):
            raise ExecError('string operand')
        if ty.k == 'i':
            if x == 'true':
                return '1'
            if x == 'false':
                return '0'
            if x in ('undef', 'poison'):
                return f'undef({ty.n})'
            if x in ('zeroinitializer',):
                return '0'
            if x == 'ptrtoint':
                self.expect('(')
                t = self.type()
                v = self.value(t)
                self.expect('to')
                self.type()
                self.expect(')')
                return v
            if x in ('add', 'sub'):
                while self.peek() in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t = self.type()
                b = self.value(t)
                self.expect(')')
                return f'{x}_({a},{b},{t.n})'
            return str(int(x) & tm.M_(ty.n))
        if ty.k == 'p':
            if x in ('null', 'undef', 'poison', 'zeroinitializer'):
                return '0'
            if x == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                self.expect('(')
                e = self.gep_args()
                self.expect(')')
                return e
            if x == 'inttoptr':
                self.expect('(')
                t = self.type()
                v = self.value(t)
                self.expect('to')
                self.type()
                self.expect(')')
                return v
        if ty.k == 'v':
            if x == 'zeroinitializer':
                return f'[0]*{ty.n}'
            if x in ('undef', 'poison'):
                return f'[undef({ty.e.n if ty.e.k == "i" else 64})]*{ty.n}'
            if x == 'splat':
                self.expect('(')
                t = self.type()
                v = self.value(t)
                self.expect(')')
                return f'[{v}]*{ty.n}'
            if x == '<':
                vs = []
                while not self.accept('>'):
                    t = self.type()
                    vs.append(self.value(t))
                    self.accept(',')
                return '[' + ','.join(vs) + ']'
        if ty.k in ('s', 'a') and x in ('undef', 'poison', 'zeroinitializer'):
            n = len(ty.fs) if ty.k == 's' else ty.n
            return f'[0]*{n}'
        raise ExecError(f'IR operand {x} of type {ty.k}')

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)

    def gep_args(self):
        t = self.type()
        self.expect(',')
        pt = self.type()
        self.attrs()
        base = self.value(pt)
        if pt.k == 'v':
            raise ExecError('vector gep')
        const = 0
        terms = []
        first = True
        cur = t
        while self.accept(','):
            self.accept('inrange')
            it = self.type()
            v = self.value(it)
            if first:
                size = cur.size
                first = False
            elif cur.k == 's':
                idx = int(v)
                const += cur.n[idx]
                cur = cur.fs[idx]
                continue
            else:
                cur = cur.e
                size = cur.size
            if v.lstrip('-').isdigit():
                k = int(v)
                if k >> (it.n - 1) & 1:
                    k -= 1 << it.n
                const += k * size
            else:
                terms.append(f'gepi({v},{it.n},{size})' if it.n != 64 else (f'{v}*{size}' if size != 1 else v))
        if not terms:
            return f'({base}+{const})' if const else base
        return f'gep({base},{const},{",".join(terms)})'


def parse_cstr(s):
    out = bytearray()
    s = s[2:-1]
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}     # name -> (ty, init tokens or None, const)
        self.fsrc = {}        # name -> (params, ret, blocks text)
        self.decl = set()
        self.names = {}
        self.src = {}
        self.inames = set()
        self._parse(open(path).read())
        self.code = {}

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        glines = []
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                glines.append(l)
            elif l.startswith('@'):
                glines.append(l)
            elif l.startswith('declare'):
                m = re.search(r'@([\w.$]+|"[^"]*")\(', l)
                self.decl.add(m.group(1))
            elif l.startswith('define'):
                body = []
                head = l
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                m = re.search(r'@([\w.$]+)\(', head)
                self.fsrc[m.group(1)] = (head, body)
            i += 1
        pend = [l for l in glines if l.startswith('%')]
        for _ in range(20):
            rest = []
            for l in pend:
                nm, d = l.split(' = type ', 1)
                try:
                    if d.strip() == 'opaque':
                        self.types[nm] = Ty('s', fs=[])
                    else:
                        self.types[nm] = P(self, d).type()
                except KeyError:
                    rest.append(l)
            if not rest:
                break
            pend = rest
        for l in glines:
            if not l.startswith('@'):
                continue
            m = re.match(r'@([\w.$]+|"[^"]*") = (.*)$', l)
            nm, d = m.group(1), m.group(2)
            ext = re.match(r'external\b', d)
            m2 = re.search(r'\b(global|constant)\b (.*)$', d)
            if m2 is None:
                continue
            self.globals[nm] = (m2.group(1) == 'constant', m2.group(2), bool(ext) or ' external ' in ' ' + d[:m2.start()])

    # -- naming
    def local(self, x):
        s = self.names.get(x)
        if s is None:
            s = 'v' + re.sub(r'\W', lambda m: '_%x_' % ord(m.group(0)), x[1:])
            self.names[x] = s
        return s

    def glob(self, x):
        return f'G[{x[1:]!r}]'

    # -- code generation
    def compile(self, name, env):
        head, body = self.fsrc[name]
        self.names = {}
        m = re.search(r'@' + re.escape(name) + r'\((.*)\)', head)
        # parameter list up to the matching parenthesis
        s = head[head.index('@' + name) + len(name) + 2:]
        d = 1
        k = 0
        while d:
            if s[k] == '(':
                d += 1
            elif s[k] == ')':
                d -= 1
            k += 1
        p = P(self, s[:k - 1])
        params = []
        while p.i < len(p.t):
            if p.accept('...'):
                break
            t = p.type()
            p.attrs()
            params.append(self.local(p.next()))
            p.accept(',')
        # blocks
        blocks = []
        cur = None
        nparam = len(params)
        entry_label = None
        joined = []
        for l in body:
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            joined.append(l)
        # multi-line switch
        lines = []
        for l in joined:
            if lines and lines[-1].count('[') > lines[-1].count(']'):
                lines[-1] += ' ' + l.strip()
            else:
                lines.append(l)
        first = True
        for l in lines:
            ml = re.match(r'^([-\w.$]+|"[^"]*"):', l)
            if ml and not l.startswith(' '):
                cur = (ml.group(1), [])
                blocks.append(cur)
                first = False
                continue
            if first:
                cur = ('%entry%', [])
                blocks.append(cur)
                first = False
            cur[1].append(l.strip())
        idx = {b[0]: i for i, b in enumerate(blocks)}
        if blocks[0][0] == '%entry%':
            # implicit entry label is the next unnamed number
            nums = [x for x in params]
            idx['0' if not params else str(len(params))] = 0
        # phis: per block, list of (dest, {pred: expr})
        phis = []
        insts = []
        for lab, ins in blocks:
            ph = []
            rest = []
            for l in ins:
                mm = re.match(r'^(%[-\w.$]+|%"[^"]*") = phi (.*)$', l)
                if mm:
                    q = P(self, self._strip(mm.group(2)))
                    t = q.type()
                    src = {}
                    while True:
                        q.expect('[')
                        v = q.value(t)
                        q.expect(',')
                        b = q.next()
                        q.expect(']')
                        src[idx[b[1:].strip('"')]] = v
                        if not q.accept(','):
                            break
                    ph.append((self.local(mm.group(1)), src))
                else:
                    rest.append(l)
            phis.append(ph)
            insts.append(rest)
        out = []
        allocas = []

        def goto(frm, to, ind):
            r = []
            ph = phis[to]
            if ph:
                if len(ph) == 1:
                    r.append(f'{ind}{ph[0][0]}={ph[0][1][frm]}')
                else:
                    r.append(f'{ind}' + ','.join(x[0] for x in ph) + '=' + ','.join(x[1][frm] for x in ph))
            r.append(f'{ind}bb={to}')
            return r
        code = {}
        for bi, ins in enumerate(insts):
            o = []
            for l in ins:
                self._inst(l, o, bi, idx, goto)
            code[bi] = o
        self.src[name] = None
        res = [f'def f(m{"".join("," + x for x in params)}):', '  bb=0', '  fr=[]', '  try:', '   while 1:']

        def tree(lo, hi, ind):
            if hi - lo == 1:
                body = code[lo]
                for x in body:
                    res.append(ind + x)
                if not body:
                    res.append(ind + 'pass')
                return
            mid = (lo + hi) // 2
            res.append(f'{ind}if bb<{mid}:')
            tree(lo, mid, ind + ' ')
            res.append(f'{ind}else:')
            tree(mid, hi, ind + ' ')
        tree(0, len(blocks), '    ')
        res += ['  finally:', '   for q in fr: m.free(q)']
        src = '\n'.join(res)
        ns = env
        exec(compile(src, f'<{name}>', 'exec'), ns)
        f = ns['f']
        self.src[name] = src
        return f

    @staticmethod
    def _strip(l):
        # metadata and attributes at the end
        l = re.sub(r', ![\w.]+ ![\w.()]+', '', l)
        l = re.sub(r'(, )?![\w.]+ !\{[^}]*\}', '', l)
        return re.sub(r' #\d+$', '', l)

    def _inst(self, l, o, bi, idx, goto):
        l = self._strip(l)
        m = re.match(r'^(%[-\w.$]+|%"[^"]*") = (.*)$', l)
        dst = None
        if m:
            dst = self.local(m.group(1))
            l = m.group(2)
        p = P(self, l)
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        f = getattr(self, '_i_' + op, None)
        if op in BIN:
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            fn = BIN[op]
            if t.k == 'v':
                w = t.e.n
                o.append(f'{dst}=[{fn}(x,y,{w}) for x,y in zip({a},{b})]')
            else:
                o.append(f'{dst}={fn}({a},{b},{t.n})')
            return
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                o += goto(bi, idx[p.next()[1:].strip('"')], '')
                return
            t, c = p.tv()
            p.expect(',')
            p.expect('label')
            a = idx[p.next()[1:].strip('"')]
            p.expect(',')
            p.expect('label')
            b = idx[p.next()[1:].strip('"')]
            o.append(f'if {c} if {c}.__class__ is int else m.branch({c}):')
            o += goto(bi, a, ' ')
            o.append('else:')
            o += goto(bi, b, ' ')
            return
        if op == 'switch':
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            d = idx[p.next()[1:].strip('"')]
            p.expect('[')
            first = True
            while not p.accept(']'):
                tt = p.type()
                k = p.value(tt)
                p.expect(',')
                p.expect('label')
                b = idx[p.next()[1:].strip('"')]
                o.append(f'{"if" if first else "elif"} m.branch(gen("eq",{v},{k},{t.n})):')
                first = False
                o += goto(bi, b, ' ')
            if first:
                o += goto(bi, d, '')
            else:
                o.append('else:')
                o += goto(bi, d, ' ')
            return
        if op == 'ret':
            if p.peek() == 'void':
                o.append('return None')
            else:
                t, v = p.tv()
                o.append(f'return {v}')
            return
        if op == 'unreachable':
            o.append('raise ExecError("unreachable")')
            return
        if op == 'alloca':
            t = p.type()
            n = '1'
            if p.accept(','):
                if p.peek() != 'align':
                    nt, n = p.tv()
            o.append(f'{dst}=m.alloc({t.size}*{n},{dst!r})')
            o.append(f'fr.append({dst})')
            return
        if op == 'load':
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            pt, a = p.tv()
            o.append(f'{dst}={self._ld(t, a)}')
            return
        if op == 'store':
            p.accept('volatile')
            t, v = p.tv()
            p.expect(',')
            pt, a = p.tv()
            self._st(o, t, a, v)
            return
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            o.append(f'{dst}={p.gep_args()}')
            return
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            while p.peek() in ('nneg', 'nsw', 'nuw'):
                p.next()
            t, v = p.tv()
            p.expect('to')
            u = p.type()
            if op == 'bitcast':
                o.append(f'{dst}={self._bitcast(t, u, v)}')
                return
            if op in ('ptrtoint', 'inttoptr'):
                o.append(f'{dst}={v}')
                return
            if t.k == 'v':
                a, b = t.e.n, u.e.n
                e = {'zext': f'zext(x,{a},{b})', 'sext': f'sext(x,{a},{b})', 'trunc': f'ext(x,0,{b})'}[op]
                o.append(f'{dst}=[{e} for x in {v}]')
            else:
                a, b = t.n, u.n
                o.append(f'{dst}=' + {'zext': f'zext({v},{a},{b})', 'sext': f'sext({v},{a},{b})', 'trunc': f'ext({v},0,{b})'}[op])
            return
        if op == 'icmp':
            p.accept('samesign')
            pr = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            if t.k == 'v':
                o.append(f'{dst}=[icmp({pr!r},x,y,{t.e.n}) for x,y in zip({a},{b})]')
            else:
                o.append(f'{dst}=icmp({pr!r},{a},{b},{64 if t.k == "p" else t.n})')
            return
        if op == 'select':
            ct, c = p.tv()
            p.expect(',')
            t, a = p.tv()
            p.expect(',')
            t, b = p.tv()
            if ct.k == 'v':
                o.append(f'{dst}=[ite(c,x,y,{t.e.n}) for c,x,y in zip({c},{a},{b})]')
            elif t.k == 'v':
                o.append(f'{dst}=[ite({c},x,y,{t.e.n}) for x,y in zip({a},{b})]')
            else:
                o.append(f'{dst}=ite({c},{a},{b},{64 if t.k == "p" else t.n})')
            return
        if op == 'extractelement':
            t, v = p.tv()
            p.expect(',')
            it, i = p.tv()
            o.append(f'{dst}={v}[{i}]')
            return
        if op == 'insertelement':
            t, v = p.tv()
            p.expect(',')
            et, e = p.tv()
            p.expect(',')
            it, i = p.tv()
            o.append(f'{dst}=insel({v},{e},{i})')
            return
        if op == 'shufflevector':
            t, a = p.tv()
            p.expect(',')
            t, b = p.tv()
            p.expect(',')
            mt = p.type()
            # mask constants
            x = p.next()
            n = mt.n
            if x == 'zeroinitializer':
                mk = [0] * n
            elif x in ('poison', 'undef'):
                mk = [-1] * n
            else:
                mk = []
                while not p.accept('>'):
                    p.type()
                    y = p.next()
                    mk.append(-1 if y in ('poison', 'undef') else int(y))
                    p.accept(',')
            if all(k < t.n for k in mk):
                o.append(f'q={a}')
                o.append(f'{dst}=[' + ','.join('undef(%d)' % t.e.n if k < 0 else f'q[{k}]' for k in mk) + ']')
            else:
                o.append(f'q={a};r={b}')
                o.append(f'{dst}=[' + ','.join('undef(%d)' % t.e.n if k < 0 else f'q[{k}]' if k < t.n else f'r[{k - t.n}]'
                                               for k in mk) + ']')
            return
        if op == 'freeze':
            t, v = p.tv()
            o.append(f'{dst}={v}')
            return
        if op == 'extractvalue':
            t, v = p.tv()
            e = v
            while p.accept(','):
                e += f'[{int(p.next())}]'
            o.append(f'{dst}={e}')
            return
        if op == 'insertvalue':
            t, v = p.tv()
            p.expect(',')
            et, e = p.tv()
            p.expect(',')
            o.append(f'{dst}=insel({v},{e},{int(p.next())})')
            return
        if op == 'call':
            while p.peek() in ('fastcc', 'ccc', 'coldcc', 'nnan', 'ninf'):
                p.next()
            p.attrs()
            rt = p.type()
            if p.peek() == '(' :  # function type (varargs)
                d = 0
                while True:
                    y = p.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
            callee = p.next()
            if callee == 'asm':
                while p.peek() in ('sideeffect', 'alignstack', 'inteldialect'):
                    p.next()
                tmpl = p.next()
                p.expect(',')
                callee = 'asm:' + tmpl.strip('"') + '|' + p.next().strip('"')
            p.expect('(')
            args = []
            tys = []
            while not p.accept(')'):
                t = p.type()
                p.attrs()
                if t.k == 'void':
                    while p.peek() not in (',', ')'):
                        p.next()
                else:
                    args.append(p.value(t))
                    tys.append(t)
                p.accept(',')
            self._call(o, dst, rt, callee, args, tys)
            return
        if op == 'fence':
            return
        raise ExecError(f'IR instruction {op}: {l[:120]}')

    def _ld(self, t, a):
        if t.k in ('i', 'p'):
            if t.k == 'i' and t.n % 8:
                return f'ext(m.ld({a},{t.size}),0,{t.n})'
            return f'm.ld({a},{t.size})'
        if t.k == 'v' and t.e.n >= 8:
            es = t.e.n // 8
            return f'ldv(m,{a},{t.n},{es})'
        raise ExecError('load type')

    def _st(self, o, t, a, v):
        if t.k in ('i', 'p'):
            if t.k == 'i' and t.n % 8:
                v = f'zext({v},{t.n},{8 * t.size})'
            o.append(f'm.st({a},{t.size},{v})')
        elif t.k == 'v' and t.e.n >= 8:
            o.append(f'stv(m,{a},{t.e.n // 8},{v})')
        elif t.k == 'a' or t.k == 's':
            raise ExecError('store of aggregate')
        else:
            raise ExecError('store type')

    def _bitcast(self, t, u, v):
        if t.k != 'v' and u.k != 'v':
            return v
        if t.k == 'v' and u.k == 'v':
            if t.e.n == u.e.n:
                return v
            return f'recast({v},{t.e.n},{u.e.n})'
        if t.k == 'v':
            return f'cat([(x,{t.e.n}) for x in {v}])'
        return f'[ext({v},{u.e.n}*i,{u.e.n}) for i in range({u.n})]'

    def _call(self, o, dst, rt, callee, args, tys):
        d = f'{dst}=' if dst else ''
        if callee[0] == '%':
            o.append(f'{d}m.callptr({self.local(callee)})({",".join(["m"] + args)})')
            return
        if callee.startswith('asm:'):
            o.append(f'{d}inline_asm({callee!r},{",".join(args)})')
            return
        nm = callee[1:]
        if nm.startswith('llvm.'):
            if nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.prefetch')):
                return
            b = nm[5:]
            if b.startswith('stacksave'):
                o.append(f'{d}0')
                return
            if b.startswith('stackrestore'):
                return
            if b.startswith(('memcpy.', 'memmove.')):
                o.append(f'm.memcpy({args[0]},{args[1]},{args[2]})')
                return
            if b.startswith('memset.'):
                o.append(f'm.memset({args[0]},{args[1]},{args[2]})')
                return
            for k in ('fshl', 'fshr', 'umin', 'umax', 'smin', 'smax', 'bswap', 'ctpop', 'abs', 'usub.sat'):
                if b.startswith(k + '.'):
                    if tys[0].k == 'v':
                        o.append(f'{d}[intr_{k.replace(".", "_")}({tys[0].e.n},*z) for z in zip({",".join(args)})]')
                    else:
                        o.append(f'{d}intr_{k.replace(".", "_")}({tys[0].n},{",".join(args)})')
                    return
            base = b
            ew = [t.e.n if t.k == 'v' and t.e.k == 'i' else t.n for t in tys]
            o.append(f'{d}X86[{base!r}](m,{",".join(args)})')
            self.inames.add(base)
            return
        o.append(f'{d}F[{nm!r}]({",".join(["m"] + args)})')


BIN = {'xor': 'xor', 'and': 'and_', 'or': 'or_', 'add': 'add_', 'sub': 'sub_', 'mul': 'mul_', 'shl': 'shl_', 'lshr': 'lshr_',
       'ashr': 'ashr_', 'urem': 'urem_', 'udiv': 'udiv_', 'sdiv': 'sdiv_', 'srem': 'srem_'}


# ---------------------------------------------------------------- runtime helpers

def add_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & tm.MASKS[w]
    return tm.gen('add', a, b, w)


def sub_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & tm.MASKS[w]
    return tm.gen('sub', a, b, w)


def mul_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a * b) & tm.MASKS[w]
    return tm.gen('mul', a, b, w)


def shl_(a, b, w):
    if b.__class__ is int:
        if a.__class__ is int:
            return (a << b) & tm.MASKS[w] if b < w else 0
        return tm.shl(a, b, w)
    return tm.gen('shl', a, b, w)


def lshr_(a, b, w):
    if b.__class__ is int:
        if a.__class__ is int:
            return a >> b if b < w else 0
        return tm.lshr(a, b, w)
    return tm.gen('lshr', a, b, w)


def ashr_(a, b, w):
    return tm.ashr(a, b, w)


def urem_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a % b
    if b.__class__ is int and b & (b - 1) == 0:
        return tm.mask(a, b - 1, w)
    raise ExecError('symbolic urem')


def udiv_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a // b
    if b.__class__ is int and b & (b - 1) == 0:
        return tm.lshr(a, b.bit_length() - 1, w)
    raise ExecError('symbolic udiv')


def _s(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def sdiv_(a, b, w):
    x, y = _s(a, w), _s(b, w)
    q = abs(x) // abs(y)
    return (q if (x < 0) == (y < 0) else -q) & tm.M_(w)


def srem_(a, b, w):
    x, y = _s(a, w), _s(b, w)
    r = abs(x) % abs(y)
    return (-r if x < 0 else r) & tm.M_(w)


def icmp(p, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if p == 'eq':
            return 1 if a == b else 0
        if p == 'ne':
            return 1 if a != b else 0
        if p[0] == 's':
            a, b = _s(a, w), _s(b, w)
        q = p[1:]
        if q == 'lt':
            return 1 if a < b else 0
        if q == 'gt':
            return 1 if a > b else 0
        if q == 'le':
            return 1 if a <= b else 0
        return 1 if a >= b else 0
    if p == 'eq':
        return tm.gen('eq', a, b, w)
    if p == 'ne':
        return tm.xor(tm.gen('eq', a, b, w), 1, 1)
    o = p[0] + 'lt'
    q = p[1:]
    if q == 'lt':
        return tm.gen(o, a, b, w)
    if q == 'gt':
        return tm.gen(o, b, a, w)
    if q == 'le':
        return tm.xor(tm.gen(o, b, a, w), 1, 1)
    return tm.xor(tm.gen(o, a, b, w), 1, 1)


def gep(base, const, *idx):
    s = base + const
    for i in idx:
        s += i
    return s & 0xFFFFFFFFFFFFFFFF


def gepi(v, n, size):
    if v >> (n - 1) & 1:
        v -= 1 << n
    return v * size


def insel(v, e, i):
    r = list(v)
    r[i] = e
    return r


def ldv(m, a, n, es):
    return [m.ld(a + i * es, es) for i in range(n)]


def stv(m, a, es, v):
    for x in v:
        m.st(a, es, x)
        a += es


def recast(v, a, b):
    if a > b:
        k = a // b
        return [tm.ext(x, b * i, b) for x in v for i in range(k)]
    k = b // a
    return [tm.cat([(x, a) for x in v[i:i + k]]) for i in range(0, len(v), k)]


_undef = [0]


def undef(n):
    return tm.var('undef', n)   # any result that depends on it differs from the specification


def intr_fshl(w, a, b, r):
    if r.__class__ is not int:
        raise ExecError('symbolic funnel shift')
    r %= w
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return tm.rotl(a, r, w)
    if r == 0:
        return a
    return tm.cat([(tm.ext(b, w - r, r), r), (tm.ext(a, 0, w - r), w - r)])


def intr_fshr(w, a, b, r):
    r %= w
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return tm.rotl(a, w - r, w)
    if r == 0:
        return b
    return tm.cat([(tm.ext(b, r, w - r), w - r), (tm.ext(a, 0, r), r)])


def intr_umin(w, a, b):
    return tm.ite(icmp('ult', a, b, w), a, b, w)


def intr_umax(w, a, b):
    return tm.ite(icmp('ult', a, b, w), b, a, w)


def intr_smin(w, a, b):
    return tm.ite(icmp('slt', a, b, w), a, b, w)


def intr_smax(w, a, b):
    return tm.ite(icmp('slt', a, b, w), b, a, w)


def intr_usub_sat(w, a, b):
    return tm.ite(icmp('ult', a, b, w), 0, sub_(a, b, w), w)


def intr_bswap(w, a):
    return tm.bswap(a, w)


def tern(a, b, c, imm, w):
    """Bitwise ternary function in algebraic normal form: index = a*4+b*2+c."""
    coef = [(imm >> i) & 1 for i in range(8)]
    for k in (1, 2, 4):
        for i in range(8):
            if i & k:
                coef[i] ^= coef[i ^ k]
    parts = []
    if coef[0]:
        parts.append(tm.M_(w))
    for i in range(1, 8):
        if coef[i]:
            t = None
            for k, v in ((4, a), (2, b), (1, c)):
                if i & k:
                    t = v if t is None else tm.and_(t, v, w)
            parts.append(t)
    r = 0
    for t in parts:
        r = tm.xor(r, t, w)
    return r


def _pternlog(w):
    def f(m, a, b, c, imm):
        return [tern(x, y, z, imm, w) for x, y, z in zip(a, b, c)]
    return f


def _vpermi2(m, a, idx, b):
    n = len(a)
    t = a + b
    return [t[i & (2 * n - 1)] for i in idx]


def _permvar(m, a, idx):
    n = len(a)
    return [a[i & (n - 1)] for i in idx]


def _mload(m, p, al, mask, pas):
    return None


def _sx32(i):
    return i - (1 << 32) if i >> 31 else i


def _gather_avx2(es):
    def f(m, src, base, idx, mask, scale):
        return [m.ld(base + _sx32(idx[i]) * scale, es) if mask[i] >> (8 * es - 1) else src[i] for i in range(len(src))]
    return f


def _gather512(es):
    def f(m, src, base, idx, mask, scale):
        return [m.ld(base + _sx32(idx[i]) * scale, es) if mask[i] else src[i] for i in range(len(src))]
    return f


def _scatter(es):
    def f(m, base, mask, idx, v, scale):
        for i in range(len(v)):
            if mask[i]:
                m.st(base + _sx32(idx[i]) * scale, es, v[i])
    return f


def _masked_load(es):
    def f(m, p, al, mask, pas):
        return [m.ld(p + i * es, es) if mask[i] else pas[i] for i in range(len(mask))]
    return f


def _masked_store(es):
    def f(m, v, p, al, mask):
        for i in range(len(mask)):
            if mask[i]:
                m.st(p + i * es, es, v[i])
    return f


def inline_asm(t, *args):
    mm = re.match(r'asm:shld \$2,\$0,\$0\|=r,0,i,', t)
    if mm:
        return tm.rotl(args[0], args[1], 64)
    mm = re.match(r'asm:rorx? ', t)
    raise ExecError('inline asm ' + t)


X86 = {}
for _n, _w in (('d', 32), ('q', 64)):
    for _v in (128, 256, 512):
        X86[f'x86.avx512.pternlog.{_n}.{_v}'] = _pternlog(_w)
        X86[f'x86.avx512.vpermi2var.{_n}.{_v}'] = _vpermi2
X86['x86.avx512.permvar.si.512'] = X86['x86.avx512.permvar.di.512'] = _permvar
X86['x86.avx2.permd'] = _permvar
for _s1, _e in (('d', 4), ('q', 8)):
    X86[f'x86.avx2.gather.d.{_s1}'] = X86[f'x86.avx2.gather.d.{_s1}.256'] = _gather_avx2(_e)
X86['x86.avx512.mask.gather.dpi.512'] = _gather512(4)
X86['x86.avx512.mask.gather.dpq.512'] = _gather512(8)
X86['x86.avx512.mask.scatter.dpi.512'] = _scatter(4)
X86['x86.avx512.mask.scatter.dpq.512'] = _scatter(8)
for _k in (2, 4, 8):
    X86[f'x86.avx512.mask.scattersiv{_k}.di'] = _scatter(8)
    X86[f'x86.avx512.mask.scattersiv{_k}.si'] = _scatter(4)
for _k in (2, 4, 8, 16):
    X86[f'masked.load.v{_k}i64.p0'] = _masked_load(8)
    X86[f'masked.store.v{_k}i64.p0'] = _masked_store(8)
    X86[f'masked.load.v{_k}i32.p0'] = _masked_load(4)
    X86[f'masked.store.v{_k}i32.p0'] = _masked_store(4)


def _pshufb(m, a, k):
    n = len(a)
    return [0 if k[i] & 128 else a[(i & ~15) | (k[i] & 15)] for i in range(n)]


X86['x86.ssse3.pshuf.b.128'] = X86['x86.avx2.pshuf.b'] = _pshufb


def _memcmp(m, a, b, n):
    """Only equality with zero is meaningful to callers: 0 iff equal, else 1."""
    d = 0
    i = 0
    acc = 1
    while i < n:
        k = min(8, n - i)
        acc = tm.and_(acc, tm.gen('eq', m.ld(a + i, k), m.ld(b + i, k), 8 * k), 1) if acc != 0 else 0
        i += k
    r = tm.xor(acc, 1, 1)
    return tm.zext(r, 1, 32)


def _memcpy(m, d, s, n):
    m.memcpy(d, s, n)
    return d


def _memset(m, d, c, n):
    m.memset(d, c, n)
    return d


def _abort(m, *a):
    raise MemViolation('assertion failure or abort')


def _malloc(m, n):
    return m.alloc(n, 'malloc')


LIBC = {
    'malloc': _malloc, 'aligned_alloc': lambda m, a, n: m.alloc(n, 'malloc'), 'free': lambda m, p: m.free(p) if p else None,
    'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset, 'memcmp': _memcmp, 'bcmp': _memcmp,
    'strlen': None, '__assert_fail': _abort, 'abort': _abort,
    'printf': lambda m, *a: 0, 'fprintf': lambda m, *a: 0, 'putchar': lambda m, *a: 0, 'puts': lambda m, *a: 0,
}


def _strlen(m, p):
    n = 0
    while True:
        c = m.ld(p + n, 1)
        if m.branch(tm.gen('eq', c, 0, 8)):
            return n
        n += 1


LIBC['strlen'] = _strlen


class FuncTable(dict):
    def __init__(self, prog):
        self.prog = prog

    def __missing__(self, name):
        f = self.prog.get_function(name)
        self[name] = f
        return f


class GlobTable(dict):
    def __init__(self, prog):
        self.prog = prog

    def __missing__(self, name):
        a = self.prog.place_global(name)
        self[name] = a
        return a


class Program:
    """One linked module plus hooks; run(fn, args) executes on a fresh Mem."""

    def __init__(self, path):
        self.mod = Module(path)
        self.hooks = {}
        self.F = FuncTable(self)
        self.G = GlobTable(self)
        self.pending = []
        self.compiled = {}
        self.env = {
            'xor': tm.xor, 'and_': tm.and_, 'or_': tm.or_, 'ext': tm.ext, 'cat': tm.cat, 'zext': tm.zext, 'sext': tm.sext,
            'ite': tm.ite, 'gen': tm.gen, 'add_': add_, 'sub_': sub_, 'mul_': mul_, 'shl_': shl_, 'lshr_': lshr_,
            'ashr_': ashr_, 'urem_': urem_, 'udiv_': udiv_, 'sdiv_': sdiv_, 'srem_': srem_, 'icmp': icmp, 'gep': gep,
            'gepi': gepi, 'insel': insel, 'ldv': ldv, 'stv': stv, 'recast': recast, 'undef': undef, 'X86': X86, 'F': self.F,
            'G': self.G, 'ExecError': ExecError, 'intr_fshl': intr_fshl, 'intr_fshr': intr_fshr, 'intr_umin': intr_umin,
            'intr_umax': intr_umax, 'intr_smin': intr_smin, 'intr_smax': intr_smax, 'intr_bswap': intr_bswap,
            'intr_usub_sat': intr_usub_sat, 'inline_asm': inline_asm,
        }
        self.m = None
        self.used = set()

    def hook(self, name, fn):
        self.hooks[name] = fn
        self.F.pop(name, None)

    def unhook(self, name):
        self.hooks.pop(name, None)
        self.F.pop(name, None)

    def get_function(self, name):
        if name in self.hooks:
            return self.hooks[name]
        if name in self.compiled:
            return self.compiled[name]
        if name in self.mod.fsrc:
            f = self.mod.compile(name, dict(self.env))
            self.compiled[name] = f
            self.used.add(name)
            return f
        if name in LIBC:
            return LIBC[name]
        raise ExecError(f'call of undefined function {name}')

    def fresh(self):
        self.m = Mem()
        self.m.prog = self
        self.m.callptr = self._callptr
        self.G.clear()
        return self.m

    def _callptr(self, p):
        o = self.m.objs[p >> 40]
        if not o.name.startswith('fn:'):
            raise ExecError('indirect call')
        return self.F[o.name[3:]]

    def place_global(self, name):
        m = self.m
        g = self.mod.globals.get(name)
        if g is None:
            if name in self.mod.fsrc or name in self.hooks or name in self.mod.decl:
                return m.alloc(0, 'fn:' + name)
            raise ExecError(f'global {name}')
        const, text, external = g
        p = P(self.mod, Module._strip(text))
        ty = p.type()
        if external:
            if name in ('stdout', 'stderr', 'stdin'):
                a = m.alloc(8, name)
                m.st(a, 8, 0)
                return a
            raise ExecError(f'external global {name}')
        a = m.alloc(ty.size, name)
        self._init(m, p, ty, a)
        m.objs[-1 if False else (a >> 40)].ro = const
        return a

    def _init(self, m, p, ty, a):
        x = p.peek()
        if x in ('zeroinitializer', 'undef', 'poison'):
            p.next()
            m.memset(a, 0, ty.size)
            return
        if x.startswith('c"'):
            p.next()
            for i, b in enumerate(parse_cstr(x)):
                m.st(a + i, 1, b)
            return
        if ty.k == 'a':
            p.expect('[')
            for i in range(ty.n):
                t = p.type()
                self._init(m, p, t, a + i * ty.e.size)
                p.accept(',')
            p.expect(']')
            return
        if ty.k == 's':
            br = p.next()
            if br == '<':
                p.expect('{')
            for i, f in enumerate(ty.fs):
                t = p.type()
                self._init(m, p, f, a + ty.n[i])
                p.accept(',')
            p.expect('}')
            if br == '<':
                p.expect('>')
            return
        v = eval(p.value(ty), dict(self.env))
        if ty.k == 'v':
            stv(m, a, ty.e.n // 8, v)
        else:
            m.st(a, ty.size, v)

    def call(self, name, *args):
        return self.F[name](self.m, *args)
