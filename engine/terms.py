"""Bit-vector terms for the symbolic executor.

A value is a Python int (a constant) or a T (hash-consed DAG node).  Constructors rewrite to a normal form (XOR is flattened,
AND is kept in algebraic normal form, byte extraction and concatenation are merged, two-segment concatenations become
rotations).  Every rewrite can be validated by the SMT solver (VALIDATE), see certify().

SAT sweeping: a fresh node whose value under random simulation equals that of an existing node is merged with it only after
z3 has shown the two equal for all values of a cut (local leaves) - so simulation only ever proposes, and the solver decides.
"""
import random
import time
import zlib
import z3

NSIM = 3


class Stats:
    def __init__(self):
        self.queries = 0          # SMT queries sent to the solver
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.cached = 0           # obligations whose canonical shape was already discharged
        self.identical = 0        # output obligations closed by normal form (identity of hash-consed nodes)
        self.solver_s = 0.0
        self.nodes = 0
        self.rewrites_checked = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d['solver_s'] = round(d['solver_s'], 3)
        return d

    def add(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()


class T:
    __slots__ = ('op', 'w', 'a', 'id', 's', 'fz', 'alias', 'atomic')

    def __repr__(self):
        return f'<{self.op}{self.w}#{self.id}>'


H = {}
SIGS = {}
ALL = []
RNG = random.Random(1)
SWEEP = True
VALIDATE = False
MASKS = {w: (1 << w) - 1 for w in range(0, 2049)}


def M_(w):
    m = MASKS.get(w)
    if m is None:
        m = MASKS[w] = (1 << w) - 1
    return m


def reset(seed=1):
    STATS.nodes += len(ALL)
    H.clear()
    SIGS.clear()
    APPS.clear()
    APPSIG.clear()
    LEVELS.clear()
    CONJ.clear()
    OROF.clear()
    ALL.clear()
    RNG.seed(seed)


def sig(v):
    if type(v) is int:
        return (v,) * NSIM
    return v.s


def new(op, w, a, s, key, atomic=False):
    t = T()
    t.op = op
    t.w = w
    t.a = a
    t.s = s
    t.fz = False
    t.alias = None
    t.atomic = atomic
    t.id = len(ALL)
    ALL.append(t)
    H[key] = t
    return t


def var(name, w):
    key = ('V', name, w)
    t = H.get(key)
    if t is None:
        t = new('V', w, (name,), tuple(RNG.getrandbits(w) for _ in range(NSIM)), key, True)
    return t


APPS = {}
APPSIG = {}


def ufuns(fname, w, cnt, args):
    """The cnt outputs of an uninterpreted function on args (a tuple of values).

    Applications whose arguments agree under simulation are identified once the solver has shown the arguments equal
    (congruence), so that applications are syntactically equal whenever their arguments are provably equal.
    """
    key = (fname, cnt, tuple(a if type(a) is int else (a.id,) for a in args))
    r = APPS.get(key)
    if r is not None:
        return r
    fid = zlib.crc32(fname.encode())
    sk = tuple(hash((fid, cnt, tuple(sig(a)[k] for a in args))) for k in range(NSIM))
    for old_args, old in APPSIG.get(sk, ()):
        if all(x is y or (type(x) is int and type(y) is int and x == y)
               or (type(x) is not int and type(y) is not int and x.w == y.w and prove_eq(x, y))
               for x, y in zip(args, old_args)):
            APPS[key] = old
            return old
    big = [random.Random(k).getrandbits(w * cnt) for k in sk]
    m = M_(w)
    n = len(APPS)
    r = [new('U', w, (fname, i, args), tuple((b >> (w * i)) & m for b in big), ('U', n, i), True) for i in range(cnt)]
    APPS[key] = r
    APPSIG.setdefault(sk, []).append((args, r))
    return r


def ufun(fname, idx, w, args):
    return ufuns(fname, w, 25 if w == 64 else 12, args)[idx]


def freeze(t):
    """Marks a node as atomic for flattening and as a cut point for proofs."""
    if type(t) is not int:
        t.fz = True
        t.atomic = True
    return t


# ---------------------------------------------------------------- constructors

def opaque(t):
    """An atomic node equal to the concatenation t; from now on t is built as this node."""
    if t.alias is not None:
        return t.alias
    z = new('Z', t.w, (t,), t.s, ('Z', t.id))
    z.fz = z.atomic = True
    t.alias = z
    n = _segwise(xor, t, M_(t.w), t.w)
    if type(n) is not int and n.op == 'C' and n is not t:
        n.alias = xorn((z, M_(t.w)), t.w)
    return z


def xor(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        if a == 0:
            return b
    elif type(b) is int:
        if b == 0:
            return a
    elif a is b:
        return 0
    if (type(a) is not int and a.op == 'C' and not a.fz) or (type(b) is not int and b.op == 'C' and not b.fz):
        return _segwise(xor, a, b, w)
    return xorn((a, b), w)


def xorn(parts, w):
    const = 0
    ch = {}
    for t in parts:
        if type(t) is int:
            const ^= t
        elif t.op == 'X' and not t.fz and len(t.a) < 24:
            const ^= t.a[0]
            for c in t.a[1:]:
                if c.id in ch:
                    del ch[c.id]
                else:
                    ch[c.id] = c
        else:
            if t.op == 'X' and t.a[0] and not t.fz:
                const ^= t.a[0]
                t = _dropc(t)
            if t.id in ch:
                del ch[t.id]
            else:
                ch[t.id] = t
    if not ch:
        return const
    if len(ch) == 1 and const == 0:
        for t in ch.values():
            return t
    ids = sorted(ch)
    key = ('X', w, const, *ids)
    t = H.get(key)
    if t is not None:
        return t.alias if t.alias is not None else t
    s = [const] * NSIM
    for i in ids:
        cs = ch[i].s
        for k in range(NSIM):
            s[k] ^= cs[k]
    t = new('X', w, (const, *[ch[i] for i in ids]), tuple(s), key)
    if len(ids) > 1:
        return _sweep(t)
    return t


def _dropc(t):
    """The xor node t without its constant."""
    ch = t.a[1:]
    if len(ch) == 1:
        return ch[0]
    w = t.w
    key = ('X', w, 0, *[c.id for c in ch])
    n = H.get(key)
    if n is not None:
        return n.alias if n.alias is not None else n
    c = t.a[0]
    return _sweep(new('X', w, (0, *ch), tuple(x ^ c for x in t.s), key))


def not_(a, w):
    return xor(a, M_(w), w)


def nz(t):
    """Mask of bits that can be nonzero."""
    if type(t) is int:
        return t
    op = t.op
    if op == 'C':
        m = 0
        p = 0
        for v, sw in t.a:
            m |= nz(v) << p
            p += sw
        return m
    if op == 'M':
        return t.a[0]
    return M_(t.w)


def and_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a & b
        return mask(b, a, w)
    if type(b) is int:
        return mask(a, b, w)
    if a is b:
        return a
    if (a.op == 'C' and not a.fz) or (b.op == 'C' and not b.fz):
        return _segwise(and_, a, b, w)
    ones = M_(w)
    if a.op == 'X' and a.a[0] == ones and not a.fz:
        return xor(b, and_(xor(a, ones, w), b, w), w)
    if b.op == 'X' and b.a[0] == ones and not b.fz:
        return xor(a, and_(a, xor(b, ones, w), w), w)
    if w == 1:
        p, q = _atoms(a), _atoms(b)
        if p and q:
            return conj(p | q)
    return _and2(a, b, w)


CONJ = {}    # id of a conjunction of equalities -> its members
OROF = {}    # id of a disjunction -> its members


def _atoms(t):
    if t.op == 'G' and t.a[0] == 'eq':
        return frozenset((t,))
    return CONJ.get(t.id)


def conj(atoms):
    """Canonical conjunction of a set of equalities."""
    r = None
    done = []
    for t in sorted(atoms, key=lambda t: t.id):
        done.append(t)
        r = t if r is None else _and2(r, t, 1)
        if len(done) > 1:
            CONJ[r.id] = frozenset(done)
    return r


def _eq0(a, b, w):
    """a == b for a term a and a constant b, as a conjunction of equalities of at most eight bits."""
    parts = []
    if b == 0 and a.id in OROF:
        parts = [(x, 0, w) for x in sorted(OROF[a.id], key=lambda t: t.id)]
    elif a.op == 'C':
        p = 0
        for v, sw in a.a:
            parts.append((v, b >> p & M_(sw), sw))
            p += sw
    elif w > 8:
        parts = [(ext(a, i, min(8, w - i)), b >> i & M_(min(8, w - i)), min(8, w - i)) for i in range(0, w, 8)]
    if not parts:
        return None
    acc = 1
    for v, x, k in parts:
        e = gen('eq', v, x, k)
        acc = and_(acc, e, 1)
        if acc == 0 and type(acc) is int:
            return 0
    return acc


def _and2(a, b, w):
    if a.id > b.id:
        a, b = b, a
    key = ('A', w, a.id, b.id)
    t = H.get(key)
    if t is not None:
        return t.alias if t.alias is not None else t
    x, y = a.s, b.s
    t = new('A', w, (a, b), tuple(x[k] & y[k] for k in range(NSIM)), key)
    return _sweep(t)


def or_(a, b, w):
    if type(a) is int and type(b) is int:
        return a | b
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    if nz(a) & nz(b) == 0:
        return _disjoint(a, b, w)
    if type(a) is int:
        return xor(mask(b, M_(w) & ~a, w), a, w)
    if type(b) is int:
        return xor(mask(a, M_(w) & ~b, w), b, w)
    if a is b:
        return a
    t = xor(xor(a, b, w), and_(a, b, w), w)
    if type(t) is not int:
        OROF[t.id] = OROF.get(a.id, frozenset((a,))) | OROF.get(b.id, frozenset((b,)))
    return t


def _disjoint(a, b, w):
    return xor(a, b, w)


def runs(m):
    out = []
    p = 0
    while m:
        tz = (m & -m).bit_length() - 1
        p += tz
        m >>= tz
        k = ((~m) & (m + 1)).bit_length() - 1
        out.append((p, k))
        p += k
        m >>= k
    return out


def mask(t, m, w):
    m &= M_(w)
    if m == 0:
        return 0
    if m == M_(w):
        return t
    if type(t) is int:
        return t & m
    if t.op == 'C':
        return _segwise(and_, t, m, w)
    if t.op == 'M':
        return mask(t.a[1], m & t.a[0], w)
    r = runs(m)
    if len(r) <= 3:
        segs = []
        p = 0
        for lo, k in r:
            if lo > p:
                segs.append((0, lo - p))
            segs.append((ext(t, lo, k), k))
            p = lo + k
        if p < w:
            segs.append((0, w - p))
        return cat(segs)
    if t.op == 'X' and t.a[0] and not t.fz:
        return xor(mask(_dropc(t), m, w), t.a[0] & m, w)
    key = ('M', w, m, t.id)
    r = H.get(key)
    if r is not None:
        return r.alias if r.alias is not None else r
    r = new('M', w, (m, t), tuple(x & m for x in t.s), key)
    return _sweep(r)


def rotl(t, r, w):
    r %= w
    if r == 0:
        return t
    if type(t) is int:
        return ((t << r) | (t >> (w - r))) & M_(w)
    op = t.op
    if op == 'R':
        return rotl(t.a[0], r + t.a[1], w)
    if op == 'C' and not t.fz:
        return cat([(ext(t, w - r, r), r), (ext(t, 0, w - r), w - r)])
    if op == 'X' and t.a[0] and not t.fz:
        c = t.a[0]
        return xor(rotl(_dropc(t), r, w), rotl(c, r, w), w)
    key = ('R', w, r, t.id)
    n = H.get(key)
    if n is not None:
        return n.alias if n.alias is not None else n
    m = M_(w)
    n = new('R', w, (t, r), tuple(((x << r) | (x >> (w - r))) & m for x in t.s), key)
    return _sweep(n)


def rotr(t, r, w):
    return rotl(t, (w - r) % w, w)


def ext(t, lo, k):
    if type(t) is int:
        return (t >> lo) & M_(k)
    w = t.w
    if k == w:
        return t
    op = t.op
    if op == 'E':
        return ext(t.a[0], t.a[1] + lo, k)
    if op == 'C':
        segs = []
        p = 0
        end = lo + k
        for v, sw in t.a:
            if p + sw > lo:
                if p >= end:
                    break
                b = max(lo, p)
                e = min(end, p + sw)
                segs.append((ext(v, b - p, e - b) if e - b != sw else v, e - b))
            p += sw
        return cat(segs)
    if op == 'X' and not t.fz:
        ok = True
        for c in t.a[1:]:
            if not c.atomic:
                ok = False
                break
        if ok:
            return xorn_any([ext(c, lo, k) for c in t.a], k)
        if t.a[0]:
            c = t.a[0]
            return xor(ext(_dropc(t), lo, k), (c >> lo) & M_(k), k)
    elif op == 'R':
        base, r = t.a
        b = (lo - r) % w
        if b + k <= w:
            return ext(base, b, k)
        return cat([(ext(base, b, w - b), w - b), (ext(base, 0, k - (w - b)), k - (w - b))])
    elif op == 'M':
        return and_(ext(t.a[1], lo, k), (t.a[0] >> lo) & M_(k), k)
    elif op == 'P':
        if k == 1:
            return ext(t.a[0], t.a[1][lo], 1)
        return perm(t.a[0], t.a[1][lo:lo + k])
    key = ('E', k, lo, t.id)
    n = H.get(key)
    if n is not None:
        return n.alias if n.alias is not None else n
    m = M_(k)
    n = new('E', k, (t, lo), tuple((x >> lo) & m for x in t.s), key, t.atomic)
    return n


def xorn_any(parts, w):
    r = 0
    simple = []
    for p in parts:
        if type(p) is not int and p.op == 'C':
            r = xor(r, p, w)
        else:
            simple.append(p)
    return xor(r, xorn(simple, w), w)


def perm(t, idx):
    """Bits idx[0], idx[1], ... of t, low to high."""
    if type(t) is int:
        r = 0
        for j, i in enumerate(idx):
            r |= ((t >> i) & 1) << j
        return r
    w = len(idx)
    key = ('P', w, idx, t.id)
    n = H.get(key)
    if n is not None:
        return n.alias if n.alias is not None else n

    def pv(x):
        r = 0
        for j, i in enumerate(idx):
            r |= ((x >> i) & 1) << j
        return r
    return new('P', w, (t, idx), tuple(pv(x) for x in t.s), key, True)


def _adj(a, wa, b, wb):
    """Extractions a (low) and b of the same node: their concatenation as an extraction or a rotation."""
    m = a.a[0]
    if a.a[1] + wa == b.a[1]:
        return ext(m, a.a[1], wa + wb)
    if b.a[1] == 0 and wa + wb == m.w and a.a[1] + wa == m.w:
        return rotl(m, wa, m.w)
    return None


def _merge(a, wa, b, wb):
    """A value of width wa+wb equal to b||a (a low) with a single segment, or None."""
    ta = type(a) is int
    tb = type(b) is int
    if ta and tb:
        return a | (b << wa)
    if ta or tb:
        return None
    oa, ob = a.op, b.op
    if oa == 'E' and ob == 'E':
        if a.a[0] is b.a[0]:
            return _adj(a, wa, b, wb)
        return None
    xa = oa == 'X' and not a.fz
    xb = ob == 'X' and not b.fz
    if not (xa or xb):
        return None
    ca, la = (a.a[0], a.a[1:]) if xa else (0, (a,))
    cb, lb = (b.a[0], b.a[1:]) if xb else (0, (b,))
    if len(la) != len(lb):
        return None
    # pair children by (base, adjacency)
    out = []
    used = [False] * len(lb)
    for x in la:
        if x.op != 'E':
            return None
        for j, y in enumerate(lb):
            if not used[j] and y.op == 'E' and y.a[0] is x.a[0]:
                m = _adj(x, wa, y, wb)
                if m is None:
                    continue
                used[j] = True
                out.append(m)
                break
        else:
            return None
    return xorn([ca | (cb << wa)] + out, wa + wb)


def cat(segs):
    """segs: [(value,width)] low to high."""
    flat = []
    for v, w in segs:
        if w == 0:
            continue
        if type(v) is not int and v.op == 'C' and not v.fz:
            src = v.a
        else:
            src = ((v, w),)
        for x, xw in src:
            if flat:
                m = _merge(flat[-1][0], flat[-1][1], x, xw)
                if m is not None:
                    if type(m) is not int and m.op == 'C':
                        flat.pop()
                        flat.extend(m.a)
                    else:
                        flat[-1] = (m, flat[-1][1] + xw)
                        while len(flat) > 1:
                            m = _merge(flat[-2][0], flat[-2][1], flat[-1][0], flat[-1][1])
                            if m is None or (type(m) is not int and m.op == 'C'):
                                break
                            flat[-2:] = [(m, flat[-2][1] + flat[-1][1])]
                    continue
            flat.append((x, xw))
    if not flat:
        return 0
    if len(flat) == 1:
        return flat[0][0]
    w = sum(x[1] for x in flat)
    if len(flat) == 2 and type(flat[0][0]) is not int and type(flat[1][0]) is not int:
        (lo, wl), (hi, wh) = flat
        m = _merge(hi, wh, lo, wl)
        if m is not None and not (type(m) is not int and m.op == 'C'):
            if type(m) is int or m.w == w:
                # value = rotate m left by wl:  low wl bits of the result are the top wl bits of m
                if type(m) is int or m.op != 'E' or m.a[0].w != w:
                    return _rot_node(m, wl, w)
    key = ('C', w) + tuple((v if type(v) is int else (v.id,), sw) for v, sw in flat)
    t = H.get(key)
    if t is not None:
        return t.alias if t.alias is not None else t
    s = []
    for k in range(NSIM):
        acc = 0
        p = 0
        for v, sw in flat:
            acc |= (v if type(v) is int else v.s[k]) << p
            p += sw
        s.append(acc)
    t = new('C', w, tuple(flat), tuple(s), key)
    return _sweep(t)


def _rot_node(m, r, w):
    return rotl(m, r, w)


def _segwise(f, a, b, w):
    bounds = set([0, w])
    for t in (a, b):
        if type(t) is not int and t.op == 'C' and not t.fz:
            p = 0
            for _, sw in t.a:
                p += sw
                bounds.add(p)
    bl = sorted(bounds)
    out = []
    for i in range(len(bl) - 1):
        lo, k = bl[i], bl[i + 1] - bl[i]
        out.append((f(ext(a, lo, k), ext(b, lo, k), k), k))
    return cat(out)


def zext(t, w, to):
    if type(t) is int or w == to:
        return t
    return cat([(t, w), (0, to - w)])


def sext(t, w, to):
    if type(t) is int:
        return t | (M_(to) & ~M_(w)) if t >> (w - 1) & 1 else t
    s = ext(t, w - 1, 1)
    return cat([(t, w)] + [(s, 1)] * (to - w))


def shl(t, n, w):
    if n >= w:
        return 0
    if n == 0:
        return t
    if type(t) is int:
        return (t << n) & M_(w)
    return cat([(0, n), (ext(t, 0, w - n), w - n)])


def lshr(t, n, w):
    if n >= w:
        return 0
    if n == 0:
        return t
    if type(t) is int:
        return t >> n
    return cat([(ext(t, n, w - n), w - n), (0, n)])


def ashr(t, n, w):
    if type(t) is int:
        if t >> (w - 1) & 1:
            t |= ~M_(w)
        return (t >> n) & M_(w)
    s = ext(t, w - 1, 1)
    return cat([(ext(t, n, w - n), w - n)] + [(s, 1)] * n)


def _ev2(op, x, y, w):
    m = M_(w)
    if op == 'add':
        return (x + y) & m
    if op == 'sub':
        return (x - y) & m
    if op == 'mul':
        return (x * y) & m
    if op == 'eq':
        return int(x == y)
    if op == 'ult':
        return int(x < y)
    if op == 'slt':
        sx = x - (1 << w) if x >> (w - 1) else x
        sy = y - (1 << w) if y >> (w - 1) else y
        return int(sx < sy)
    if op == 'shl':
        return (x << y) & m if y < w else 0
    if op == 'lshr':
        return x >> y if y < w else 0
    raise NotImplementedError(op)


def gen(op, a, b, w):
    """Generic binary operation on width-w operands (eq/ult/slt give 1 bit)."""
    if type(a) is int and type(b) is int:
        return _ev2(op, a, b, w)
    if op in ('shl', 'lshr') and type(b) is int:
        return shl(a, b, w) if op == 'shl' else lshr(a, b, w)
    ow = 1 if op in ('eq', 'ult', 'slt') else w
    if op == 'eq':
        if a is b:
            return 1
        if type(a) is int:
            a, b = b, a
        if type(b) is int and b & ~nz(a):
            return 0
        if w == 1:
            return xor(xor(a, b, 1), 1, 1)
        if type(b) is not int:
            a, b = xor(a, b, w), 0
            if type(a) is int:
                return int(a == 0)
        elif a.op == 'X' and a.a[0]:
            c = a.a[0]
            a, b = xor(a, c, w), b ^ c
        if w > 1:
            t = _eq0(a, b, w)
            if t is not None:
                return t
    elif op == 'add':
        if type(a) is int:
            a, b = b, a
        if type(b) is int and b == 0:
            return a
        if nz(a) & nz(b) == 0:
            return xor(a, b, w)
    elif op == 'sub':
        if type(b) is int and b == 0:
            return a
        if a is b:
            return 0
    elif op == 'ult':
        if type(b) is int and b == 0 or a is b:
            return 0
        if type(b) is int and nz(a) < b:
            return 1
    elif op == 'mul':
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return 0
            if b & (b - 1) == 0:
                return shl(a, b.bit_length() - 1, w)
            # t*(2^i+2^j+..) with non-overlapping partial products is the compiler's form of t<<i | t<<j | ..
            if bin(b).count('1') <= 4:
                acc = 0
                for i in range(w):
                    if b >> i & 1:
                        p = shl(a, i, w)
                        if nz(acc) & nz(p):
                            break
                        acc = xor(acc, p, w)
                else:
                    return acc
    key = ('G', op, w, a if type(a) is int else (a.id,), b if type(b) is int else (b.id,))
    t = H.get(key)
    if t is not None:
        return t.alias if t.alias is not None else t
    x, y = sig(a), sig(b)
    t = new('G', ow, (op, a, b, w), tuple(_ev2(op, x[k], y[k], w) for k in range(NSIM)), key)
    return t


def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if type(a) is type(b) and (a is b or a == b):
        return a
    if w == 1 and type(a) is int and type(b) is int:
        return c if a else xor(c, 1, 1)
    key = ('I', w, c.id, a if type(a) is int else (a.id,), b if type(b) is int else (b.id,))
    t = H.get(key)
    if t is not None:
        return t.alias if t.alias is not None else t
    x, y = sig(a), sig(b)
    t = new('I', w, (c, a, b), tuple(x[k] if c.s[k] else y[k] for k in range(NSIM)), key)
    return t


def bswap(t, w):
    n = w // 8
    return cat([(ext(t, 8 * (n - 1 - i), 8), 8) for i in range(n)])


# ---------------------------------------------------------------- SAT sweeping

MINBITS = 32


def _partial(t):
    """Nodes with constant bits coincide with other nodes on random values too often to be worth a query."""
    if t.op == 'C':
        for v, sw in t.a:
            if type(v) is int:
                return True
    return t.op == 'M'


def _sweep(t):
    if not SWEEP or t.w < MINBITS or t.w > 64 or _partial(t):
        return t
    m = M_(t.w)
    s = t.s
    if s[0] & 1:
        k = (t.w,) + tuple(x ^ m for x in s)
        inv = True
    else:
        k = (t.w,) + s
        inv = False
    e = SIGS.get(k)
    if e is None:
        SIGS[k] = (t, inv)
        return t
    r, rinv = e
    if r.op == 'X' and t.op == 'X' and not r.fz and r.a[1:] == t.a[1:]:
        return t
    c = m if inv != rinv else 0
    if prove_eq(t, r, c):
        al = xor(r, c, t.w)
        if al is not t:
            t.alias = al
        return al
    return t


def register(t):
    """Makes an (atomic) node findable as a representative."""
    if type(t) is int:
        return
    m = M_(t.w)
    s = t.s
    inv = bool(s[0] & 1)
    k = (t.w,) + (tuple(x ^ m for x in s) if inv else s)
    SIGS[k] = (t, inv)


# ---------------------------------------------------------------- SMT

SHAPES = {}      # canonical shape -> bool (True: proved)
CTX = z3.Context()
QUERY_TIMEOUT_MS = 20000
QUERYLOG = None   # set to a list to record distinct queries as SMT-LIB text


def kids(t):
    op = t.op
    if op == 'X':
        return t.a[1:]
    if op in ('A',):
        return t.a
    if op in ('R', 'E', 'P', 'Z'):
        return (t.a[0],)
    if op == 'M':
        return (t.a[1],)
    if op == 'C':
        return tuple(v for v, _ in t.a if type(v) is not int)
    if op == 'G':
        return tuple(v for v in t.a[1:3] if type(v) is not int)
    if op == 'I':
        return tuple(v for v in t.a if type(v) is not int)
    return ()


class Cone:
    """Canonical description and SMT translation of the cone of some roots down to a set of cut nodes."""

    def __init__(self, roots, expand):
        # expand: set of ids of frozen nodes that are to be expanded
        self.num = {}
        self.shape = []
        self.leaves = []
        self.order = []
        for r in roots:
            self._visit(r, expand)
        self.roots = roots

    def _visit(self, root, expand):
        num = self.num
        if root.id in num:
            return
        stack = [(root, False)]
        while stack:
            t, done = stack.pop()
            if t.id in num:
                continue
            if t.op in ('V', 'U') or (t.fz and t.id not in expand):
                num[t.id] = len(num)
                self.shape.append(('L', t.w))
                self.leaves.append(t)
                continue
            if not done:
                stack.append((t, True))
                for k in reversed(kids(t)):
                    if k.id not in num:
                        stack.append((k, False))
                continue
            n = lambda v: v if type(v) is int else (num[v.id],)
            op = t.op
            if op == 'X':
                sh = ('X', t.w, t.a[0]) + tuple(sorted(num[c.id] for c in t.a[1:]))
            elif op == 'A':
                sh = ('A', t.w) + tuple(sorted(num[c.id] for c in t.a))
            elif op == 'R':
                sh = ('R', t.w, num[t.a[0].id], t.a[1])
            elif op == 'Z':
                sh = ('Z', t.w, num[t.a[0].id])
            elif op in ('E', 'P'):
                sh = (op, t.w, num[t.a[0].id], t.a[1])
            elif op == 'M':
                sh = ('M', t.w, t.a[0], num[t.a[1].id])
            elif op == 'C':
                sh = ('C', t.w) + tuple((n(v), sw) for v, sw in t.a)
            elif op == 'G':
                sh = ('G', t.a[0], n(t.a[1]), n(t.a[2]), t.a[3])
            elif op == 'I':
                sh = ('I', t.w, n(t.a[0]), n(t.a[1]), n(t.a[2]))
            else:
                raise NotImplementedError(op)
            num[t.id] = len(num)
            self.shape.append(sh)
            self.order.append(t)

    def z3vals(self):
        vals = {}
        for i, t in enumerate(self.leaves):
            vals[t.id] = z3.BitVec(f'x{i}', t.w, CTX)

        for t in self.order:
            vals[t.id] = z3of(t, lambda v, w: z3.BitVecVal(v, w, CTX) if type(v) is int else vals[v.id])
        return vals


def z3of(t, g):
    op, w = t.op, t.w
    if op == 'X':
        r = None
        for c in t.a[1:]:
            v = g(c, w)
            r = v if r is None else r ^ v
        if t.a[0]:
            r = r ^ z3.BitVecVal(t.a[0], w, CTX)
        return r
    if op == 'A':
        return g(t.a[0], w) & g(t.a[1], w)
    if op == 'R':
        v = g(t.a[0], w)
        r = t.a[1]
        return z3.Concat(z3.Extract(w - r - 1, 0, v), z3.Extract(w - 1, w - r, v))
    if op == 'Z':
        return g(t.a[0], w)
    if op == 'E':
        return z3.Extract(t.a[1] + w - 1, t.a[1], g(t.a[0], t.a[0].w))
    if op == 'P':
        v = g(t.a[0], t.a[0].w)
        bits = [z3.Extract(i, i, v) for i in t.a[1]]
        return z3.Concat(*reversed(bits)) if len(bits) > 1 else bits[0]
    if op == 'M':
        return g(t.a[1], w) & z3.BitVecVal(t.a[0], w, CTX)
    if op == 'C':
        parts = [g(v, sw) for v, sw in t.a]
        return z3.Concat(*reversed(parts))
    if op == 'G':
        o, a, b, ow = t.a
        a, b = g(a, ow), g(b, ow)
        one, zero = z3.BitVecVal(1, 1, CTX), z3.BitVecVal(0, 1, CTX)
        if o == 'add':
            return a + b
        if o == 'sub':
            return a - b
        if o == 'mul':
            return a * b
        if o == 'shl':
            return a << b
        if o == 'lshr':
            return z3.LShR(a, b)
        if o == 'eq':
            return z3.If(a == b, one, zero)
        if o == 'ult':
            return z3.If(z3.ULT(a, b), one, zero)
        if o == 'slt':
            return z3.If(a < b, one, zero)
    if op == 'I':
        return z3.If(g(t.a[0], 1) == z3.BitVecVal(1, 1, CTX), g(t.a[1], w), g(t.a[2], w))
    raise NotImplementedError(op)


def check(cond, timeout=None):
    """Sends one query; returns 'unsat'/'sat'/'unknown' and the model."""
    s = z3.SolverFor('QF_BV', ctx=CTX)
    s.set('timeout', timeout or QUERY_TIMEOUT_MS)
    s.add(cond)
    if QUERYLOG is not None:
        QUERYLOG.append(s.to_smt2())
    t0 = time.time()
    r = s.check()
    STATS.solver_s += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        STATS.sat += 1
        return 'sat', s.model()
    STATS.unknown += 1
    return 'unknown', None


def _strip(t):
    return t


MAXCONE = 6000


LEVELS = {}


def level(t):
    """Number of frozen nodes on the longest path below t, t included."""
    got = LEVELS.get(t.id)
    if got is not None:
        return got
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in LEVELS:
            stack.pop()
            continue
        todo = [k for k in kids(x) if k.id not in LEVELS]
        if todo:
            stack.extend(todo)
            continue
        LEVELS[x.id] = max((LEVELS[k.id] for k in kids(x)), default=0) + (1 if x.fz else 0)
        stack.pop()
    return LEVELS[t.id]


def prove_eq(a, b, c=0, depth=3, want_model=False):
    """Whether a == b ^ c for all values; tries growing cuts. True / False (not shown)."""
    if a is b:
        return c == 0
    expand = set()
    if a.fz:
        expand.add(a.id)
    if b.fz:
        expand.add(b.id)
    # a frozen node under a single-child wrapper (P/E/R of it) is expanded as well: it is the round output itself
    for r in (a, b):
        x = r
        while x.op in ('P', 'E', 'R', 'Z') or (x.op == 'X' and len(x.a) == 2):
            x = kids(x)[0]
            if x.fz:
                expand.add(x.id)
    for d in range(depth):
        cone = Cone([a, b], expand)
        key = (tuple(cone.shape), cone.num[a.id], cone.num[b.id], c)
        got = SHAPES.get(key)
        if got is None:
            vals = cone.z3vals()
            rhs = vals[b.id]
            if c:
                rhs = rhs ^ z3.BitVecVal(c, b.w, CTX)
            res, _ = check(vals[a.id] != rhs)
            got = SHAPES[key] = res
        else:
            STATS.cached += 1
        if got == 'unsat':
            return True
        # expand the newest frozen leaves
        fz = [l for l in cone.leaves if l.fz]
        if not fz or len(cone.order) > MAXCONE:
            return False
        top = max(level(l) for l in fz)
        expand |= {l.id for l in fz if level(l) == top}
    return False


def evalterm(roots, env):
    """Concrete values of roots under env (leaf name -> int); U nodes are not supported."""
    memo = {}

    def g(v):
        return v if type(v) is int else memo[v.id]
    order = []
    seen = set()
    stack = [(r, False) for r in roots if type(r) is not int]
    while stack:
        t, done = stack.pop()
        if done:
            order.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for k in kids(t):
            if k.id not in seen:
                stack.append((k, False))
    for t in sorted(order, key=lambda t: t.id):
        op, w = t.op, t.w
        m = M_(w)
        if op == 'V':
            memo[t.id] = env.get(t.a[0], 0) & m
        elif op == 'U':
            raise ValueError('uninterpreted function in concrete evaluation')
        elif op == 'X':
            v = t.a[0]
            for c in t.a[1:]:
                v ^= g(c)
            memo[t.id] = v
        elif op == 'A':
            memo[t.id] = g(t.a[0]) & g(t.a[1])
        elif op == 'R':
            x, r = g(t.a[0]), t.a[1]
            memo[t.id] = ((x << r) | (x >> (w - r))) & m
        elif op == 'Z':
            memo[t.id] = g(t.a[0])
        elif op == 'E':
            memo[t.id] = (g(t.a[0]) >> t.a[1]) & m
        elif op == 'P':
            memo[t.id] = perm(g(t.a[0]), t.a[1])
        elif op == 'M':
            memo[t.id] = g(t.a[1]) & t.a[0]
        elif op == 'C':
            acc = p = 0
            for v, sw in t.a:
                acc |= g(v) << p
                p += sw
            memo[t.id] = acc
        elif op == 'G':
            memo[t.id] = _ev2(t.a[0], g(t.a[1]), g(t.a[2]), t.a[3])
        elif op == 'I':
            memo[t.id] = g(t.a[1]) if g(t.a[0]) else g(t.a[2])
    return [g(r) for r in roots]


def support(roots):
    seen = set()
    out = []
    stack = [r for r in roots if type(r) is not int]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ('V', 'U'):
            out.append(t)
        if t.op == 'U':
            stack.extend(x for x in t.a[2] if type(x) is not int)
        stack.extend(kids(t))
    return out
