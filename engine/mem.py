"""Memory and machine state of the symbolic executor: objects with exact bounds, concrete addresses, symbolic contents."""
import terms as tm

SHIFT = 40
BASE = 1 << 36
OFFM = (1 << SHIFT) - 1


class ExecError(Exception):
    """The engine cannot continue (unsupported construct): the check is inconclusive."""


class MemViolation(Exception):
    """The code under test accessed memory outside an object, freed or never-written memory."""


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Obj:
    __slots__ = ('name', 'size', 'cells', 'own', 'back', 'ro', 'mis')

    def __init__(self, name, size, back=None, ro=False):
        self.name = name
        self.size = size
        self.cells = {}
        self.own = {}
        self.back = back
        self.ro = ro
        self.mis = 0


class Mem:
    def __init__(self):
        self.objs = [Obj('null', 0)]
        self.decisions = []       # forced outcomes of symbolic branches
        self.trace = []           # (cond, outcome) taken
        self.fork_ok = False
        self.steps = 0
        self.undef = 0
        self.asked = 0            # symbolic branch conditions met
        self.log = None
        self.funs = []
        self.known = {}

    # -- allocation
    def alloc(self, size, name, back=None, ro=False, mis=0):
        o = Obj(name, size, back, ro)
        self.objs.append(o)
        p = ((len(self.objs) - 1) << SHIFT) + BASE
        o.mis = mis
        return p + mis

    def var(self, size, name, mis=0, chunk=1024):
        """Object with symbolic bytes name[0..size)."""
        return self.alloc(size, name, VarBack(name, size, chunk), False, mis)

    def const(self, data, name, ro=True, mis=0):
        return self.alloc(len(data), name, BytesBack(bytes(data)), ro, mis)

    def free(self, p):
        o = self.objs[p >> SHIFT]
        o.size = -1
        o.cells = {}
        o.own = {}
        o.back = None

    # -- access
    def ld(self, p, n):
        try:
            o = self.objs[p >> SHIFT]
        except TypeError:
            raise MemViolation('symbolic address (load)')
        except IndexError:
            raise MemViolation(f'wild pointer {p:#x} (load)')
        off = (p & OFFM) - BASE
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return self._ldslow(o, off, n)

    def _ldslow(self, o, off, n):
        if off < o.mis or off + n > o.size + o.mis:
            off -= o.mis
            raise MemViolation(f'read of {n} bytes at offset {off} of {o.name} (size {o.size})')
        own = o.own
        segs = []
        i = off
        end = off + n
        while i < end:
            s = own.get(i)
            if s is None:
                j = i + 1
                while j < end and j not in own:
                    j += 1
                segs.append((self._back(o, i, j - i), 8 * (j - i)))
                i = j
            else:
                cn, cv = o.cells[s]
                j = min(end, s + cn)
                segs.append((tm.ext(cv, 8 * (i - s), 8 * (j - i)), 8 * (j - i)))
                i = j
        if len(segs) == 1:
            return segs[0][0]
        return tm.cat(segs)

    def _back(self, o, off, n):
        b = o.back
        if b is None:
            self.undef += 1
            return tm.var(f'undef:{o.name}#{self.objs.index(o)}+{off}', 8 * n) if n == 1 else tm.cat(
                [(tm.var(f'undef:{o.name}#{self.objs.index(o)}+{off + k}', 8), 8) for k in range(n)])
        return b.get(off - o.mis, n)

    def st(self, p, n, v):
        try:
            o = self.objs[p >> SHIFT]
        except TypeError:
            raise MemViolation('symbolic address (store)')
        except IndexError:
            raise MemViolation(f'wild pointer {p:#x} (store)')
        off = (p & OFFM) - BASE
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        if off < o.mis or off + n > o.size + o.mis:
            off -= o.mis
            raise MemViolation(f'write of {n} bytes at offset {off} of {o.name} (size {o.size})')
        if o.ro:
            raise MemViolation(f'write to constant object {o.name}')
        own = o.own
        end = off + n
        i = off
        while i < end:
            s = own.get(i)
            if s is None:
                own[i] = off
                i += 1
                continue
            cn, cv = cells.pop(s)
            e = s + cn
            if s < off:
                cells[s] = (off - s, tm.ext(cv, 0, 8 * (off - s)))
            if e > end:
                cells[end] = (e - end, tm.ext(cv, 8 * (end - s), 8 * (e - end)))
                for k in range(end, e):
                    own[k] = end
            for k in range(i, min(e, end)):
                own[k] = off
            i = e
        cells[off] = (n, v)

    def getbytes(self, p, n):
        return [self.ld(p + i, 1) for i in range(n)]

    def getval(self, p, n):
        """n bytes as one little-endian value."""
        return self.ld(p, n) if n else 0

    def memcpy(self, d, s, n):
        if type(n) is not int:
            raise ExecError('symbolic memcpy length')
        if n == 0:
            return
        so = self.objs[s >> SHIFT]
        # move cell-wise in chunks of 8 (whole cells stay whole when aligned)
        vals = []
        i = 0
        while i < n:
            k = min(8, n - i)
            vals.append((i, k, self.ld(s + i, k)))
            i += k
        for i, k, v in vals:
            self.st(d + i, k, v)

    def memset(self, d, c, n):
        if type(n) is not int:
            raise ExecError('symbolic memset length')
        i = 0
        while i < n:
            k = min(8, n - i)
            self.st(d + i, k, (c & 255) * int('01' * k, 16) if type(c) is int else tm.cat([(tm.ext(c, 0, 8), 8)] * k))
            i += k

    # -- control
    def forced(self, c):
        """The only value the condition can take on this path, if the solver shows there is just one."""
        sg = tm.sig(c)
        if not self.trace and len({x & 1 for x in sg}) > 1:
            return None
        key = (c.id, len(self.trace))
        if key in self.known:
            return self.known[key]
        import z3
        path = self.trace
        cone = tm.Cone([c] + [x for x, _ in path], {t.id for t in tm.ALL if t.fz})
        vals = cone.z3vals()
        bit = lambda v: z3.BitVecVal(v, 1, tm.CTX)
        pre = [vals[x.id] == bit(d) for x, d in path]
        res = None
        for d in (0, 1):
            if tm.check(z3.And(*pre, vals[c.id] == bit(d)))[0] == 'unsat':
                res = 1 - d
                break
        self.known[key] = res
        return res

    def branch(self, c):
        if type(c) is int:
            return c
        self.asked += 1
        d = self.forced(c)
        if d is not None:
            return d
        if not self.fork_ok:
            raise NeedFork(c)
        i = len(self.trace)
        if i < len(self.decisions):
            d = self.decisions[i]
        else:
            d = 1
            self.decisions.append(1)
        self.trace.append((c, d))
        return d


class VarBack:
    def __init__(self, name, size, chunk=1024):
        self.name = name
        self.size = size
        self.chunk = chunk
        self.vars = {}

    def v(self, i):
        x = self.vars.get(i)
        if x is None:
            n = min(self.chunk, self.size - i * self.chunk)
            x = self.vars[i] = tm.var(f'{self.name}[{i * self.chunk}:{i * self.chunk + n}]', 8 * n)
        return x

    def get(self, off, n):
        c = self.chunk
        a = off // c
        if (off + n - 1) // c == a:
            return tm.ext(self.v(a), 8 * (off - a * c), 8 * n)
        segs = []
        i = off
        end = off + n
        while i < end:
            a = i // c
            k = min(end, (a + 1) * c) - i
            segs.append((tm.ext(self.v(a), 8 * (i - a * c), 8 * k), 8 * k))
            i += k
        return tm.cat(segs)


class BytesBack:
    def __init__(self, data):
        self.data = data

    def get(self, off, n):
        return int.from_bytes(self.data[off:off + n], 'little')
