"""C22 and C23: the calls of the other checks, judged by their memory accesses and by their control flow and addresses."""
import importlib
import random
import checklib
from checklib import *

# share of the calls taken in the quick tier
SHARE = {'C02': .1, 'C03': .2, 'C04': .2, 'C05': .25, 'C06': .6, 'C07': .1, 'C08': 1, 'C09': 1, 'C10': 1, 'C11': .7, 'C12': 1, 'C13': .3, 'C14': 1,
         'C15': 1, 'C16': .35, 'C17': .35, 'C18': .25, 'C19': .25, 'C20': .08, 'C21': 1, 'C28': .1}


def collect(c, rng, full):
    class Collector(Check):
        def __init__(self, prop, level='model_checking'):
            self.pre = prop
            self.tasks = []
            self.units = c.units
            self.bounds, self.assumptions, self.known = [], [], []
            self.scratch = c.scratch

        def unit(self, name, *a, **kw):
            return c.unit(f'{self.pre}-{name}', *a, **kw)

        def add(self, name, f, **kw):
            self.tasks.append((f'{self.pre} {name}', f, kw))

        def run(self, order=True):
            return None

    for prop, share in SHARE.items():
        mod = importlib.import_module(prop.lower())
        got = []

        def make(*a, **k):
            got.append(Collector(*a, **k))
            return got[-1]
        for m in (mod, sys.modules.get('deckcheck'), sys.modules.get('sanecheck')):
            if m is not None:
                m.Check = make
        mod.main()
        tasks = got[0].tasks
        for name, f, kw in tasks:
            if not full:
                if 'scripts' in kw:
                    s = [x for x in kw['scripts'] if rng.random() < share]
                    if not s:
                        continue
                    kw = {**kw, 'scripts': s}
                elif rng.random() >= share:
                    continue
            c.tasks.append((name, f, kw))


def prune(c):
    used = {id(v) for _, _, kw in c.tasks for v in kw.values() if isinstance(v, dict)}
    for k in [k for k, u in c.units.items() if id(u) not in used]:
        del c.units[k]


def main(prop, mode):
    checklib.MODE = mode
    c = Check(prop)
    rng = random.Random(f'{SEED} observe {mode}')
    collect(c, rng, TIER == 'thorough')
    prune(c)
    c.bounds = ['the calls enumerated by the checks ' + ' '.join(SHARE) + ' (lengths, offsets, histories: see there); quick takes the shares '
                + ', '.join(f'{k}:{v}' for k, v in SHARE.items()) + ', thorough takes all', 'all message, key and state contents symbolic']
    return c
