#!/usr/bin/env python3
"""xk.py OUT FRAGMENTS FILE... [gcc flags]: builds FILE... with the given fragments of ./Makefile.build into the program OUT."""
import os
import subprocess
import sys
import xml.etree.ElementTree as ET

XI = '{http://www.w3.org/2001/XInclude}include'
FR = {}


def walk(node):
    for c in node:
        if c.tag == XI:
            walk(ET.parse(c.get('href')).getroot())
        elif c.tag == 'fragment':
            FR[c.get('name')] = c
        elif isinstance(c.tag, str):
            walk(c)


def items(names, seen, out):
    for n in names:
        if n in seen:
            continue
        seen.add(n)
        items((FR[n].get('inherits') or '').split(), seen, out)
        for e in FR[n]:
            if isinstance(e.tag, str):
                it = (e.tag, (e.text or '').strip(), e.get('gcc') or '')
                if it not in out:
                    out.append(it)
    return out


def main():
    out, frags, rest = sys.argv[1], sys.argv[2].split(), sys.argv[3:]
    walk(ET.parse('Makefile.build').getroot())
    it = items(frags, set(), [])
    d = out + '.d'
    os.makedirs(d, exist_ok=True)
    with open(d + '/config.h', 'w') as f:
        f.write(''.join(f'#define {t}\n' for g, t, _ in it if g == 'config'))
    dirs = list(dict.fromkeys(os.path.dirname(t) for g, t, _ in it if g in ('h', 'inc')))
    fl = [t for g, t, _ in it if g == 'gcc' and 'native' not in t and not t.startswith('-l') and not t.startswith('-O')]
    fl += ['-O2', '-g', '-w', '-I' + d] + ['-I' + x for x in dirs] + [f'-D{t}' for g, t, _ in it if g == 'define']
    fl += [x for x in rest if x.startswith('-')]
    objs = []
    jobs = []
    for g, t, own in it:
        if g == 'c' or g == 's':
            o = f'{d}/{len(objs)}.o'
            objs.append(o)
            cmd = ['gcc'] + (fl + own.split() if g == 'c' else ['-x', 'assembler'] + [y for h, y, _ in it if h == 'gas']) + ['-c', t, '-o', o]
            jobs.append(subprocess.Popen(cmd))
    if any(j.wait() for j in jobs):
        sys.exit(3)
    sys.exit(3 if subprocess.call(['gcc'] + fl + [x for x in rest if not x.startswith('-')] + objs + ['-o', out, '-lm']) else 0)


main()
