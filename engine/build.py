"""Reads XKCP's own build description and compiles fragments of it: to LLVM IR (clang), object code (gcc) or goto binaries.

Everything is taken from /repo's current working tree and written to a scratch directory that the caller removes.
"""
import hashlib
import os
import subprocess
import xml.etree.ElementTree as ET

REPO = os.environ.get('XKCP_REPO', '/repo')
XI = '{http://www.w3.org/2001/XInclude}include'
CLANG = '/usr/bin/clang-18'
LLVM_LINK = '/usr/lib/llvm-18/bin/llvm-link'
GCC = '/usr/bin/gcc'

_frag = None


def fragments():
    global _frag
    if _frag is None:
        found = {}

        def walk(node):
            for child in node:
                if child.tag == XI:
                    walk(ET.parse(f"{REPO}/{child.get('href')}").getroot())
                elif child.tag == 'fragment':
                    found[child.get('name')] = child
                else:
                    walk(child)
        walk(ET.parse(f'{REPO}/Makefile.build').getroot())
        _frag = found
    return _frag


def resolve(names):
    seen, out = set(), []
    frag = fragments()

    def visit(name):
        if name in seen:
            return
        seen.add(name)
        node = frag[name]
        for parent in (node.get('inherits') or '').split():
            visit(parent)
        for e in node:
            if isinstance(e.tag, str):
                item = (e.tag, (e.text or '').strip(), e.get('gcc') or '')
                if item not in out:
                    out.append(item)
    for n in names:
        visit(n)
    return out


class Conf:
    """Flags and sources of a set of fragments."""

    def __init__(self, names, scratch, extra_defs=()):
        items = resolve(names)
        self.items = items
        self.config = ''.join(f'#define {t}\n' for tag, t, _ in items if tag == 'config')
        self.gcc = [t for tag, t, _ in items if tag == 'gcc' and not t.endswith('=native') and not t.startswith('-l')]
        self.gas = [t for tag, t, _ in items if tag == 'gas']
        self.dirs = list(dict.fromkeys(os.path.dirname(t) for tag, t, _ in items if tag in ('h', 'inc')))
        self.defines = [f'-D{t}' for tag, t, _ in items if tag == 'define'] + list(extra_defs)
        self.c = [(t, own) for tag, t, own in items if tag == 'c']
        self.s = [t for tag, t, _ in items if tag == 's']
        key = hashlib.sha1(('|'.join(names) + self.config).encode()).hexdigest()[:10]
        self.dir = f'{scratch}/{key}'
        os.makedirs(self.dir, exist_ok=True)
        with open(f'{self.dir}/config.h', 'w') as f:
            f.write(self.config)
        self.inc = [f'-I{self.dir}'] + [f'-I{REPO}/{d}' for d in self.dirs]

    def cflags(self, own=''):
        # -O0/-O3 settings of the project are replaced by the front end's own level
        fl = [f for f in self.gcc + own.split() if not f.startswith('-O') and f not in ('-g',)]
        return fl + self.defines + self.inc + ['-w', '-Wno-implicit-function-declaration']


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-3000:])
    return p.stdout.decode(errors='replace')


class BuildError(Exception):
    pass


LLFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin', '-fno-strict-aliasing',
           '-emit-llvm', '-S', '-fno-discard-value-names', '-fno-stack-protector', '-fno-jump-tables']


def compile_ll(conf, src, own='', extra=()):
    out = f"{conf.dir}/{hashlib.sha1((src + own + ' '.join(extra)).encode()).hexdigest()[:12]}.ll"
    path = src if src.startswith('/') else f'{REPO}/{src}'
    if not os.path.exists(out):
        run([CLANG, *LLFLAGS, *conf.cflags(own), *extra, path, '-o', out])
    return out


def link_ll(files, out):
    run([LLVM_LINK, '-S', *files, '-o', out])
    return out


def compile_o(conf, src, own='', extra=(), opt='-O2', cc=GCC):
    out = f"{conf.dir}/{hashlib.sha1((src + own + opt + cc + ' '.join(extra)).encode()).hexdigest()[:12]}.o"
    path = src if src.startswith('/') else f'{REPO}/{src}'
    if not os.path.exists(out):
        if src.endswith('.s') or src.endswith('.S'):
            run([GCC, '-x', 'assembler', *conf.gas, '-c', path, '-o', out])
        else:
            run([cc, opt, '-fPIC', *conf.cflags(own), *extra, '-c', path, '-o', out])
    return out
