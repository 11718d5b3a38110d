"""Common driver of the checks: tasks in parallel, evidence, replay, exit codes."""
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.setrecursionlimit(200000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
for d in (HERE, VERIF + '/spec', VERIF + '/checks'):
    if d not in sys.path:
        sys.path.insert(0, d)
import build  # noqa: E402
import ll  # noqa: E402
import terms as tm  # noqa: E402
from mem import ExecError, MemViolation, NeedFork, VarBack, BytesBack  # noqa: E402
from strs import Str, src, chunks, V  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


class Buf:
    def __init__(self, name, size, kind='in', mis=0, alias=None):
        self.name, self.size, self.kind, self.mis, self.alias = name, size, kind, mis, alias


def In(name, size, mis=0):
    return Buf(name, size, 'in', mis)


def Out(name, size, mis=0):
    return Buf(name, size, 'out', mis)


def InOut(name, size, mis=0):
    return Buf(name, size, 'inout', mis)


class Const(Buf):
    def __init__(self, name, data):
        Buf.__init__(self, name, len(data), 'const')
        self.data = bytes(data)


class Spec:
    """What a specification callback gets: inputs as Str plus the permutation to use."""

    def __init__(self, bufs, conc=None, uf=False, hint=''):
        self.inp = {}
        self.uf = uf
        self.hint = hint
        for b in bufs:
            if not isinstance(b, Buf):
                continue
            if b.kind in ('in', 'inout'):
                s = BytesBack(conc[b.name]) if conc is not None else VarBack(b.name, b.size)
                self.inp[b.name] = src(s, b.size)
            elif b.kind == 'const':
                self.inp[b.name] = src(BytesBack(b.data), b.size)

    def __getitem__(self, k):
        return self.inp[k]

    def keccak(self, A, n):
        import keccak
        if self.uf and not all(type(a) is int for a in A):
            args = tuple(A)
            return tm.ufuns(f'keccakp{n}', 64, 25, args)
        return keccak.keccak_p(A, n, self.hint)

    def xoodoo(self, A, n=12):
        import keccak
        if self.uf and not all(type(a) is int for a in A):
            args = tuple(A)
            return tm.ufuns(f'xoodoo{n}', 32, 12, args)
        return keccak.xoodoo(A, n)


def use_contracts(prog, perm=None):
    """Replaces every low-level service the module does not define by its contract."""
    import contracts
    contracts.install(prog, perm or contracts.uf_perm)


def contract_spec(unit, fn, args, hint=''):
    """Specification callback: the harness fn itself over the contracts of the low-level services."""
    def spec(sp):
        import contracts
        prog = program(unit)
        saved, savedF = dict(prog.hooks), dict(prog.F)
        prog.hooks.clear()
        prog.F.clear()
        contracts.install(prog, contracts.spec_perm(hint))
        try:
            m = prog.fresh()
            call, outs = [], []
            for a in args:
                if not isinstance(a, Buf):
                    call.append(a)
                    continue
                if a.kind == 'const':
                    p = m.const(a.data, a.name)
                elif a.kind in ('in', 'inout'):
                    p = m.alloc(a.size, a.name, sp.inp[a.name], a.kind == 'in')
                else:
                    p = m.alloc(a.size, a.name)
                call.append(p)
                if a.kind in ('out', 'inout'):
                    outs.append((a, p))
            prog.call(fn, *call)
            return {a.name: V([(m.ld(p + i, k), k) for i, k in chunks(a.size)]) for a, p in outs}
        finally:
            prog.hooks.clear()
            prog.hooks.update(saved)
            prog.F.clear()
            prog.F.update(savedF)
    return spec


class CaseResult(dict):
    pass


def native_c(fn, args, conc):
    """C main calling fn natively with concrete buffers; prints ret and the output buffers."""
    o = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', f'unsigned long long {fn}();', 'int main(void){']
    call = []
    outs = []
    for i, a in enumerate(args):
        if isinstance(a, Buf):
            data = None
            if a.kind in ('in', 'inout'):
                data = conc[a.name]
            elif a.kind == 'const':
                data = a.data
            o.append(f' unsigned char *b{i}=(unsigned char*)malloc({max(a.size + a.mis, 1)})+{a.mis};')
            if data is not None and a.size:
                o.append(f' static const unsigned char d{i}[]={{{",".join(map(str, data))}}}; memcpy(b{i},d{i},{a.size});')
            elif a.size:
                o.append(f' memset(b{i},0xAA,{a.size});')
            call.append(f'b{i}')
            if a.kind in ('out', 'inout'):
                outs.append((i, a))
        else:
            call.append(f'(unsigned long long){a}ULL')
    o.append(f' unsigned long long r={fn}({",".join(call)});')
    o.append(' printf("ret %u\\n",(unsigned)r);')
    for i, a in outs:
        o.append(f' printf("{a.name} "); for(int k=0;k<{a.size};k++) printf("%02x",b{i}[k]); printf("\\n");')
    o.append(' return 0;}')
    return '\n'.join(o)


def native_run(unit, fn, args, conc, asan=False, timeout=120, msan=False):
    """Compiles the unit natively and runs fn; returns (dict of outputs, text)."""
    conf = build.Conf(unit['frags'], unit['scratch'], unit.get('defs', ()))
    d = tempfile.mkdtemp(dir=unit['scratch'])
    try:
        with open(d + '/main.c', 'w') as f:
            f.write(native_c(fn, args, conc))
        flags = ['-fsanitize=address', '-g'] if asan else ['-fsanitize=memory', '-g'] if msan else []
        cc = build.CLANG if msan else build.GCC
        objs = []
        for s, own in unit_sources(conf, {**unit, 'filter': None} if 'lib/high' in (unit.get('filter') or '') else unit):
            objs.append(build.compile_o(conf, s, own, tuple(flags), cc=cc))
        for s in conf.s:
            objs.append(build.compile_o(conf, s))
        build.run([cc, '-w', *flags, '-o', d + '/a.out', d + '/main.c', *objs, '-lm'])
        p = subprocess.run([d + '/a.out'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0'})
        txt = p.stdout.decode(errors='replace')
        res = {}
        for l in txt.splitlines():
            k, _, v = l.partition(' ')
            res[k] = int(v) if k == 'ret' else bytes.fromhex(v)
        return p.returncode, res, p.stderr.decode(errors='replace')[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def unit_sources(conf, unit):
    flt = unit.get('filter')
    out = []
    for s, own in conf.c:
        if flt and not re.search(flt, s):
            continue
        out.append((s, own))
    for h in unit.get('harness', ()):
        out.append((h if h.startswith('/') else f'{VERIF}/harness/{h}', unit.get('hflags', '')))
    return out


_progs = {}


def build_unit(unit):
    """Compiles and links the unit's IR; idempotent."""
    conf = build.Conf(unit['frags'], unit['scratch'], unit.get('defs', ()))
    files = [build.compile_ll(conf, s, own) for s, own in unit_sources(conf, unit)]
    out = conf.dir + '/' + unit['name'] + '.ll'
    if not os.path.exists(out):
        tmp = out + f'.{os.getpid()}'
        build.link_ll(files, tmp)
        os.rename(tmp, out)
    objs = [build.compile_o(conf, s) for s in conf.s]
    if objs:
        exe = conf.dir + '/' + unit['name'] + '.asm'
        if not os.path.exists(exe):
            import x86
            x86.link(objs, exe)
    return out


def program(unit):
    key = unit['name']
    p = _progs.get(key)
    if p is None:
        path = build_unit(unit)
        p = ll.Program(path)
        exe = path[:-3] + '.asm'
        if os.path.exists(exe):
            import x86
            x86.attach(p, exe)
        if len(_progs) > 12:
            _progs.clear()
        _progs[key] = p
    return p


def concretize(args, k):
    """Concrete inputs from simulation vector k (the values under which signatures were computed)."""
    conc = {}
    for a in args:
        if isinstance(a, Buf) and a.kind in ('in', 'inout'):
            b = VarBack(a.name, a.size)
            conc[a.name] = b''.join(tm.sig(b.get(i, n))[k].to_bytes(n, 'little') for i, n in chunks(a.size))
    return conc


def model_inputs(args, model):
    conc = {}
    for a in args:
        if isinstance(a, Buf) and a.kind in ('in', 'inout'):
            b = VarBack(a.name, a.size)
            out = bytearray()
            for i, n in chunks(a.size):
                out += tm.evalterm([b.get(i, n)], model)[0].to_bytes(n, 'little') if True else b''
            conc[a.name] = bytes(out)
    return conc


def solve_diff(pairs, path):
    """SMT: is there an input satisfying the path condition on which some pair differs? -> ('unsat'|'sat'|'unknown', env)"""
    import z3
    roots = [t for p in pairs for t in p[:2] if type(t) is not int] + [c for c, _ in path]
    allf = {t.id for t in tm.ALL if t.fz}
    cone = tm.Cone(roots, allf)
    vals = cone.z3vals()
    g = lambda v, w: z3.BitVecVal(v, w, tm.CTX) if type(v) is int else vals[v.id]
    conds = [vals[c.id] == z3.BitVecVal(d, 1, tm.CTX) for c, d in path]
    diffs = [g(a, w) != g(b, w) for a, b, w in pairs]
    conds.append(z3.Or(*diffs) if len(diffs) > 1 else diffs[0])
    r, m = tm.check(z3.And(*conds))
    env = None
    if r == 'sat':
        env = {}
        for i, l in enumerate(cone.leaves):
            if l.op == 'V':
                v = m.eval(z3.BitVec(f'x{i}', l.w, tm.CTX), model_completion=True)
                env[l.a[0]] = v.as_long()
    return r, env


def feasible(path):
    import z3
    if not path:
        return True
    allf = {t.id for t in tm.ALL if t.fz}
    cone = tm.Cone([c for c, _ in path], allf)
    vals = cone.z3vals()
    r, _ = tm.check(z3.And(*[vals[c.id] == z3.BitVecVal(d, 1, tm.CTX) for c, d in path]))
    return r != 'unsat'


MODE = None     # 'memory' or 'branch': judge only memory accesses or control flow and addresses, not the results


def prepare(prog, hooks, extra):
    prog.hooks.clear()
    prog.F.clear()
    if getattr(prog, 'asm', None):
        prog.asm.install(prog)
    if hooks:
        hooks(prog)
    if extra:
        extra(prog)


def place_args(m, args):
    ptrs, call = {}, []
    for a in args:
        if not isinstance(a, Buf):
            call.append(a)
            continue
        if a.kind == 'const':
            p = m.const(a.data, a.name)
        elif a.kind == 'in':
            p = m.var(a.size, a.name, a.mis)
            m.objs[p >> 40].ro = True
        elif a.kind == 'inout':
            p = m.var(a.size, a.name, a.mis)
        else:
            p = m.alloc(a.size, a.name, None, False, a.mis)
        ptrs[a.name] = p
        call.append(p)
    return ptrs, call


def is_undef(t, own):
    return t.op == 'V' and str(t.a[0]).startswith('undef') and not str(t.a[0]).startswith(own)


def depends_on_undef(t, own, path, clean):
    """Can the value change with the content of never-written memory (other than the unwritten output itself)? -> (verdict, names)"""
    if type(t) is int or t.id in clean:
        return 'unsat', []
    sup = tm.support([t])
    names = sorted({str(x.a[0]) for x in sup if is_undef(x, own)})
    if not names:
        clean.add(t.id)
        return 'unsat', []
    import z3
    cone = tm.Cone([t] + [c for c, _ in path], {x.id for x in tm.ALL if x.fz})
    vals = cone.z3vals()
    sub = [(vals[x.id], z3.BitVec(f'y{i}', x.w, tm.CTX)) for i, x in enumerate(cone.leaves)
           if is_undef(x, own) or (x.op == 'U' and any(is_undef(y, own) for y in tm.support([x])))]
    e = vals[t.id]
    conds = [vals[c.id] == z3.BitVecVal(d, 1, tm.CTX) for c, d in path]
    conds += [z3.substitute(c, *sub) for c in conds]
    return tm.check(z3.And(*conds, e != z3.substitute(e, *sub)))[0], names


def observe_case(unit, fn, args, fork, desc, hooks, maxpaths, reset, extra):
    """Symbolically executes unit:fn(args); the results are not compared with a specification.

    memory: accesses stay within objects, no output depends on never-written memory; data-dependent branches explore both sides.
    branch: no branch and no address depends on data (decided by the solver when the condition is not constant)."""
    prog = program(unit)
    res = {'obligations': 0, 'violation': None, 'paths': 0}
    if MODE == 'branch' and fork:
        return res           # forged tags: the outcome of the tag comparison is allowed to steer the control flow
    if reset:
        tm.reset(SEED * 7919 + 1)
    prepare(prog, hooks, extra)
    decisions = []
    while True:
        m = prog.fresh()
        m.fork_ok = MODE == 'memory'
        m.decisions = decisions
        ptrs, call = place_args(m, args)
        try:
            with time_limit(EXEC_LIMIT):
                prog.call(fn, *call)
        except Hang:
            raise ExecError(f'{desc}: symbolic execution exceeded {EXEC_LIMIT} s')
        except MemViolation as e:
            if MODE == 'memory':
                if 'symbolic' in str(e):
                    raise ExecError(f'{desc}: {e}: the address depends on data')
                res['violation'] = mem_violation(unit, fn, args, str(e), desc, m)
            elif 'symbolic' in str(e):
                res['violation'] = trace_violation(unit, fn, args, f'{desc}: {e}', None)
            return res
        except NeedFork as e:
            res['violation'] = trace_violation(unit, fn, args, f'{desc}: control flow depends on data', e.cond)
            return res
        res['paths'] += 1
        res['obligations'] += 1 + m.asked
        if MODE == 'memory':
            for a in args:
                if not (isinstance(a, Buf) and a.kind in ('out', 'inout')):
                    continue
                seen = set()
                for i, k in chunks(a.size):
                    res['obligations'] += 1
                    t = m.ld(ptrs[a.name] + i, k)
                    r, names = depends_on_undef(t, 'undef:' + a.name + '#', m.trace, seen)
                    if r == 'unknown':
                        raise ExecError(f'{desc}: solver gave no answer about uninitialised memory')
                    if r == 'sat':
                        res['violation'] = mem_violation(unit, fn, args, f'output {a.name}+{i} depends on never-written memory {names[:3]}', desc, m,
                                                         msan=True)
                        return res
        decisions = next_path(m.trace, decisions)
        if decisions is None:
            return res
        if res['paths'] >= maxpaths:
            raise ExecError(f'{desc}: more than {maxpaths} paths')


def next_path(path, decisions):
    """The next unexplored, feasible sequence of branch outcomes, or None."""
    decisions = decisions[:len(path)]
    while True:
        while decisions and decisions[-1] == 0:
            decisions.pop()
        if not decisions:
            return None
        decisions[-1] = 0
        if feasible([(c, d) for (c, _), d in zip(path, decisions)]):
            return decisions


TRACER = r"""
#include <stdint.h>
static uint64_t h_; static int on_;
void trace_start(void) { h_ = 1469598103934665603ull; on_ = 1; }
uint64_t trace_end(void) { on_ = 0; return h_; }
static void t_(uint64_t x) { if (on_) h_ = (h_ ^ x) * 1099511628211ull; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { static uint32_t n; for (; a < b; a++) *a = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { t_(*g); }
#define T(n) void __sanitizer_cov_load##n(void *p) { t_((uintptr_t)p); } void __sanitizer_cov_store##n(void *p) { t_((uintptr_t)p + 1); }
T(1) T(2) T(4) T(8) T(16)
"""


def trace_violation(unit, fn, args, what, cond):
    """Two inputs on which the condition differs, replayed with the compiler's trace of basic blocks and addresses."""
    v = {'kind': 'branch', 'what': what, 'fn': fn, 'args': [a.name if isinstance(a, Buf) else a for a in args], 'replayed': None}
    ins = []
    if cond is not None:
        sg = tm.sig(cond)
        for d in (0, 1):
            ks = [k for k in range(tm.NSIM) if sg[k] & 1 == d]
            if ks:
                ins.append(concretize(args, ks[0]))
            else:
                import z3
                r, env = solve_diff([(cond, 1 - d, 1)], [])
                if r == 'sat':
                    ins.append(model_inputs(args, env))
    else:
        ins = [concretize(args, k) for k in (0, 1)]
    v['inputs'] = [hexd(x) for x in ins]
    if len(ins) == 2:
        try:
            v['native'] = trace_native(unit, fn, args, ins)
            hs = v['native']
            v['replayed'] = True if hs[1] == hs[3] and hs[1] != hs[2] else None
        except Exception as e:
            v['note'] = repr(e)[:500]
    return v


def trace_native(unit, fn, args, ins):
    """Hashes of the sequence of basic blocks and addresses for the inputs 0, 0, 1, 0 (C code, built by clang)."""
    conf = build.Conf(unit['frags'], unit['scratch'], unit.get('defs', ()))
    d = tempfile.mkdtemp(dir=unit['scratch'])
    try:
        o = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', f'unsigned long long {fn}();',
             'void trace_start(void); unsigned long long trace_end(void);', 'int main(void){']
        call, fill = [], [[], []]
        for i, a in enumerate(args):
            if not isinstance(a, Buf):
                call.append(f'(unsigned long long){a}ULL')
                continue
            o.append(f' unsigned char *b{i}=(unsigned char*)malloc({a.size + a.mis + 1})+{a.mis};')
            for j in (0, 1):
                data = a.data if a.kind == 'const' else ins[j][a.name] if a.kind in ('in', 'inout') else bytes(a.size)
                if a.size:
                    o.append(f' static const unsigned char d{i}_{j}[]={{{",".join(map(str, data))}}};')
                    fill[j].append(f'memcpy(b{i},d{i}_{j},{a.size});')
            call.append(f'b{i}')
        for j in (0, 0, 1, 0):
            o.append(f' {" ".join(fill[j])} trace_start(); {fn}({",".join(call)}); printf("%llx\n", trace_end());')
        o.append(' return 0;}')
        open(d + '/main.c', 'w').write('\n'.join(o))
        open(d + '/tracer.c', 'w').write(TRACER)
        objs = []
        u = {**unit, 'filter': None} if 'lib/high' in (unit.get('filter') or '') else unit
        for k, (src_, own) in enumerate(unit_sources(conf, u)):
            path = src_ if src_.startswith('/') else f'{build.REPO}/{src_}'
            objs.append(f'{d}/{k}.o')
            build.run([build.CLANG, '-O1', '-fno-builtin', '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores,no-prune', *conf.cflags(own),
                       '-c', path, '-o', objs[-1]])
        for src_ in conf.s:
            objs.append(build.compile_o(conf, src_))
        build.run([build.GCC, '-w', '-o', d + '/a.out', d + '/main.c', d + '/tracer.c', *objs, '-lm'])
        p = subprocess.run([d + '/a.out'], stdout=subprocess.PIPE, timeout=120)
        return p.stdout.decode().split()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_case(unit, fn, args, spec, uf=False, hint='', fork=False, desc='', hooks=None, ret=None, maxpaths=64, reset=True,
             fallback=None, extra=None):
    """Symbolically executes unit:fn(args) and compares every output buffer with spec(Spec) -> {name: Str}.

    Returns {'obligations', 'identical', 'violation'|None}.
    """
    if MODE:
        return observe_case(unit, fn, args, fork, desc, hooks, maxpaths, reset, extra)
    prog = program(unit)
    res = {'obligations': 0, 'violation': None, 'paths': 0}
    if reset:
        tm.reset(SEED * 7919 + 1)
    prepare(prog, hooks, extra)
    sp = Spec(args, uf=uf, hint=hint)
    exp = spec(sp)
    decisions = []
    while True:
        m = prog.fresh()
        m.fork_ok = fork
        m.decisions = decisions
        ptrs, call = place_args(m, args)
        try:
            with time_limit(EXEC_LIMIT):
                rv = prog.call(fn, *call)
        except Hang:
            res['violation'] = hang_violation(unit, fn, args, desc)
            return res
        except MemViolation as e:
            res['violation'] = mem_violation(unit, fn, args, str(e), desc, m)
            return res
        except NeedFork as e:
            res['violation'] = {'kind': 'branch', 'what': f'{desc}: control flow depends on data: {e.cond}', 'fn': fn,
                                'replayed': None}
            return res
        res['paths'] += 1
        path = list(m.trace)
        pairs = []
        for a in args:
            if isinstance(a, Buf) and a.kind in ('out', 'inout'):
                want = exp.get(a.name)
                if want is None:
                    continue
                if len(want) != a.size:
                    raise ExecError(f'spec length {len(want)} for {a.name} size {a.size}')
                for i, k in chunks(a.size):
                    got = m.ld(ptrs[a.name] + i, k)
                    w = want.get(i, k)
                    res['obligations'] += 1
                    if got is w or (type(got) is int and got == w):
                        tm.STATS.identical += 1
                        continue
                    pairs.append((got, w, 8 * k))
        if 'ret' in exp:
            res['obligations'] += 1
            w = exp['ret']
            if type(rv) is not int:
                rv = tm.ext(rv, 0, 32) if rv.w > 32 else rv
            else:
                rv &= 0xFFFFFFFF
            if not (rv is w or (type(rv) is int and rv == w)):
                pairs.append((rv, w, 32))
            else:
                tm.STATS.identical += 1
        bad = None
        if pairs:
            if not path:
                rest = []
                for got, w, bits in pairs:
                    sg, sw = tm.sig(got), tm.sig(w)
                    ks = [k for k in range(tm.NSIM) if sg[k] != sw[k]]
                    if ks:
                        bad = ('sim', concretize(args, ks[0]))
                        break
                    if type(got) is not int and type(w) is not int and tm.prove_eq(got, w):
                        continue
                    rest.append((got, w, bits))
                pairs = rest
            if bad is None and pairs:
                r, env = solve_diff(pairs, path)
                if r == 'sat':
                    bad = ('model', model_inputs(args, env))
                elif r == 'unknown':
                    raise ExecError(f'{desc}: solver gave no answer for {len(pairs)} outputs')
        if bad:
            res['violation'] = confirm(unit, fn, args, spec, bad, desc, uf)
            return res
        decisions = next_path(path, decisions)
        if decisions is None:
            return res
        if res['paths'] >= maxpaths:
            raise ExecError(f'{desc}: more than {maxpaths} paths')


EXEC_LIMIT = int(os.environ.get('VERIF_EXEC_LIMIT', '150' if TIER == 'quick' else '900'))


class Hang(Exception):
    pass


class time_limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        import signal

        def h(*a):
            raise Hang()
        signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        import signal
        signal.alarm(0)


def hang_violation(unit, fn, args, desc):
    """The symbolic execution does not end; a violation only if the native run does not end either."""
    conc = {a.name: bytes(a.size) for a in args if isinstance(a, Buf) and a.kind in ('in', 'inout')}
    try:
        native_run(unit, fn, args, conc, timeout=20)
    except subprocess.TimeoutExpired:
        return {'kind': 'hang', 'what': f'{desc}: does not terminate', 'fn': fn, 'inputs': hexd(conc), 'replayed': True}
    raise ExecError(f'{desc}: symbolic execution exceeded {EXEC_LIMIT} s')


def hexd(conc):
    return {k: v.hex() for k, v in conc.items()}


def confirm(unit, fn, args, spec, bad, desc, uf):
    """Replays a counterexample natively."""
    how, conc = bad
    v = {'kind': 'output', 'what': desc, 'fn': fn, 'inputs': hexd(conc), 'found_by': how,
         'args': [a.name if isinstance(a, Buf) else a for a in args]}
    try:
        exp = spec(Spec(args, conc=conc, uf=False))
        want = {k: (x.concrete() if isinstance(x, Str) else x) for k, x in exp.items()}
        v['expected'] = {k: (x.hex() if isinstance(x, bytes) else x) for k, x in want.items()}
    except Exception as e:
        want = None
        v['expected_error'] = repr(e)
    try:
        rc, got, err = native_run(unit, fn, args, conc)
        v['native_rc'] = rc
        v['native'] = {k: (x.hex() if isinstance(x, bytes) else x) for k, x in got.items()}
        if rc != 0 and rc != -4:
            v['replayed'] = True
        elif rc == -4:
            v['replayed'] = None
            v['note'] = 'the CPU of this machine does not run this implementation'
        else:
            v['replayed'] = want is None or any(got.get(k) != x for k, x in want.items())
    except Exception as e:
        v['replayed'] = None
        v['note'] = 'native replay failed: ' + repr(e)[:500]
    return v


def mem_violation(unit, fn, args, what, desc, m=None, msan=False):
    conc = {}
    for a in args:
        if isinstance(a, Buf) and a.kind in ('in', 'inout'):
            conc[a.name] = bytes(a.size)
    v = {'kind': 'memory', 'what': f'{desc}: {what}', 'fn': fn, 'args': [a.name if isinstance(a, Buf) else a for a in args],
         'sizes': {a.name: a.size for a in args if isinstance(a, Buf)}, 'inputs': hexd(conc)}
    try:
        rc, got, err = native_run(unit, fn, args, conc, asan=not msan, msan=msan)
        v['native_rc'] = rc
        v['asan'] = err[:800]
        v['replayed'] = True if rc != 0 and ('Sanitizer' in err or rc < 0) else None
    except Exception as e:
        v['replayed'] = None
        v['note'] = repr(e)[:300]
    return v


# ---------------------------------------------------------------- driver

_TASKS = []


def _worker(idx):
    name, f, kw = _TASKS[idx]
    t0 = time.time()
    q0 = tm.Stats()
    q0.__dict__.update(tm.STATS.__dict__)
    try:
        r = f(**kw) or {}
        r.setdefault('violation', None)
    except MemViolation as e:
        r = {'violation': {'kind': 'memory', 'what': f'{name}: {e}', 'replayed': None}}
    except Exception as e:
        r = {'error': f'{name}: {type(e).__name__}: {str(e)[:1500]}\n{traceback.format_exc()[-1200:]}', 'violation': None}
    d = {k: v - getattr(q0, k) for k, v in tm.STATS.__dict__.items()}
    r['stats'] = d
    r['name'] = name
    r['wall'] = time.time() - t0
    fs = set()
    for p in _progs.values():
        fs |= p.used
    r['functions'] = sorted(fs)
    return r


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tasks = []
        self.t0 = time.time()
        base = os.environ.get('TMPDIR', '/tmp')
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-', dir=base)
        self.units = {}
        self.assumptions = []
        self.bounds = []
        self.known = load_known(prop)

    def unit(self, name, frags, harness=(), filter=None, defs=(), hflags=''):
        u = {'name': name, 'frags': list(frags), 'harness': list(harness), 'filter': filter, 'defs': list(defs),
             'hflags': hflags, 'scratch': self.scratch}
        self.units[name] = u
        return u

    def add(self, name, f, **kw):
        self.tasks.append((name, f, kw))

    def run(self, order=True):
        rc = 2
        try:
            rc = self._run()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        sys.stdout.flush()
        os._exit(rc)

    def _run(self):
        errors = []
        tb = time.time()
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(NPROC) as ex:
            futs = {u: ex.submit(build_unit, self.units[u]) for u in self.units}
            for u, f in futs.items():
                try:
                    f.result()
                except build.BuildError as e:
                    errors.append(f'build of {u}: {e}')
                except Exception as e:
                    errors.append(f'build of {u}: {e!r}')
        tb = time.time() - tb
        results = []
        if not errors:
            ctx = multiprocessing.get_context('fork')
            _TASKS[:] = self.tasks
            with ctx.Pool(NPROC, maxtasksperchild=40) as pool:
                for r in pool.imap_unordered(_worker, range(len(self.tasks)), chunksize=1):
                    results.append(r)
                    if os.environ.get('VERIF_VERBOSE'):
                        print(f"  {r['name']}: {r['wall']:.1f}s ob={r.get('obligations')} q={r['stats']['queries']} "
                              f"{'VIOL' if r['violation'] else ''} {'ERR' if r.get('error') else ''}", flush=True)
        return self.finish(results, errors, tb)

    def finish(self, results, errors, tb=0.0):
        st = tm.Stats()
        viol = []
        kf = set()
        functions = set()
        ob = 0
        paths = 0
        samples = []
        for r in sorted(results, key=lambda r: r['name']):
            st.add(r['stats'])
            functions |= set(r.get('functions', ()))
            ob += r.get('obligations', 0)
            paths += r.get('paths', 0)
            if r.get('error'):
                errors.append(r['error'])
            vs = r['violation']
            for v in (vs if isinstance(vs, list) else [vs] if vs else []):
                v['task'] = r['name']
                k = match_known(self.known, v)
                if k:
                    kf.add(k)
                else:
                    viol.append(v)
            if len(samples) < 6:
                samples.append({'task': r['name'], 'obligations': r.get('obligations', 0), 'wall_s': round(r['wall'], 2),
                                'queries': r['stats']['queries'], 'detail': r.get('sample')})
        wall = time.time() - self.t0
        good = len([r for r in results if not r.get('error')])
        cov = {
            'obligations': ob, 'discharged': ob if not (viol or errors) else max(0, ob - len(viol)),
            'tasks': len(results), 'tasks_completed': good,
            'states': st.nodes or ob, 'transitions': ob, 'paths': paths,
            'traces_validated_against_impl': sum(1 for v in viol if v.get('replayed')),
            'solver': {'name': 'z3 ' + __import__('z3').get_version_string(), **st.as_dict()},
            'functions_encoded': sorted(functions)[:400],
            'bounds': self.bounds, 'samples': samples, 'build_s': round(tb, 2),
            'checker_cmd': ' '.join(sys.argv), 'explanation': self.__doc__ or '',
            'trusted_base': ['clang-18 front end (-O1) or objdump decoding', '/verif/engine term rewriting', 'z3',
                             '/verif/spec'],
        }
        cov.update(getattr(self, 'extra_cov', {}))
        if self.level == 'model_checking':
            cov['states'] = sum(r['stats'].get('nodes', 0) for r in results) or ob
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(viol)}
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        rc = 0
        for k in sorted(kf):
            print(f'KNOWN-FINDING: property={self.prop} {k}')
        if viol:
            os.makedirs(f'{VERIF}/evidence/replay', exist_ok=True)
            path = f'evidence/replay/{self.prop}.json'
            confirmed = [v for v in viol if v.get('replayed') is not False]
            with open(f'{VERIF}/{path}', 'w') as f:
                json.dump(viol[:20], f, indent=1, default=str)
            if confirmed:
                for v in confirmed[:5]:
                    print(f"  {v.get('what')} [replayed: {v.get('replayed')}]")
                print(f'VIOLATION property={self.prop} replay={path}')
                rc = 1
            else:
                for v in viol[:5]:
                    print(f"  not reproduced natively: {v.get('what')}")
                errors.append('counterexample does not reproduce on the native build')
        if errors and rc == 0:
            rc = 2
            for e in errors[:8]:
                print('ERROR', e)
        ev['coverage']['errors'] = len(errors)
        with open(f'{VERIF}/evidence/{self.prop}.json', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print(f'{self.prop}: {len(results)} tasks, {ob} obligations, {st.identical} by normal form, {st.queries} SMT queries '
              f'({st.solver_s:.1f}s, {st.cached} repeats), violations {len(viol)}, errors {len(errors)}, {wall:.1f}s')
        return rc


def load_known(prop):
    out = []
    try:
        with open(f'{VERIF}/known-findings.txt') as f:
            for l in f:
                l = l.strip()
                if l.startswith(f'known: property={prop} '):
                    out.append(l.split(' ', 2)[2])
    except OSError:
        pass
    return out


def match_known(known, v):
    """A known finding is identified by the exact task and description of the failing case: 'match=<text> :: <what fails>'."""
    for k in known:
        m = re.match(r'match=(.*?) :: (.*)$', k)
        if m and m.group(1) == f"{v.get('task')}|{v.get('kind')}":
            return m.group(2)
    return None
