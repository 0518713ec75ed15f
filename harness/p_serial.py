"""S01: saving, loading and copying of objects."""
import os
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch

from mushroom_rl.core.serialization import Serializable

from guard import guarded
from lib import collect

METHODS = ['primitive', 'numpy', 'torch', 'pickle', 'json', 'none']


class Node(Serializable):
    """An object as a user of the library writes it."""

    def __init__(self, attrs):
        for k, (m, f, val) in enumerate(attrs):
            name = '_x%d' % k
            setattr(self, name, val)
            if k % 2 == 0:
                self._add_save_attr(**{name: m + ('!' if f else '')})
            else:
                # registered twice, as subclasses do: the last registration counts
                self._add_save_attr(**{name: 'none'})
                self._add_save_attr(**{name: m + ('!' if f else '')})
        if not attrs:
            self._add_save_attr()

    def _post_load(self):
        done = all(k in self.__dict__ for k in self._save_attributes)
        self.pl = getattr(self, 'pl', 0) + (1 if done else 50)


class Node2(Node):
    pass


class Node3(Node2):
    def _post_load(self):
        super()._post_load()
        self.pl = self.pl


CLASSES = [Node, Node2, Node3]


def code(x):
    """content and type of a plain value as integers"""
    if isinstance(x, bool):
        return [1, int(x)]
    if isinstance(x, int):
        return [2, x]
    if isinstance(x, float):
        return [3, int(round(x * 64))]
    if isinstance(x, str):
        return [4, len(x)] + [ord(c) for c in x]
    if isinstance(x, (list, tuple)):
        out = [5 if isinstance(x, list) else 6, len(x)]
        for y in x:
            out += code(y)
        return out
    if isinstance(x, dict):
        out = [7, len(x)]
        for k, y in x.items():
            out += code(k) + code(y)
        return out
    if isinstance(x, np.ndarray):
        return [8, 'fiub'.find(x.dtype.kind), x.dtype.itemsize, x.ndim] + list(x.shape) + [int(round(float(v) * 64)) for v in x.ravel()]
    if isinstance(x, torch.Tensor):
        y = x.detach()
        return [9, int(isinstance(x, torch.nn.Parameter)), [torch.float32, torch.float64, torch.int64].index(y.dtype), y.ndim] + \
            list(y.shape) + [int(round(float(v) * 64)) for v in y.reshape(-1)]
    if isinstance(x, set):
        return [10, len(x)] + sorted(x)
    if x is None:
        return [11]
    return [99]


def read(x):
    if not isinstance(x, Serializable) or type(x) not in CLASSES:
        return {'c': 99, 'pl': 0, 'a': []}
    out = []
    for j in range(len([k for k in x.__dict__ if k.startswith('_x')])):
        name = '_x%d' % j
        m = x._save_attributes.get(name, '?')
        f = int(m.endswith('!'))
        val = x.__dict__.get(name, None)
        r = {'m': m.rstrip('!'), 'f': f, 'k': 'n', 'v': [], 'o': []}
        if isinstance(val, Serializable):
            r.update(k='o', o=[read(val)])
        elif r['m'] == 'mushroom' and isinstance(val, list):
            r.update(k='l', o=[read(y) for y in val])
        elif val is not None:
            r.update(k='v', v=code(val))
        out.append(r)
    return {'c': CLASSES.index(type(x)) + 1, 'pl': x.__dict__.get('pl', 0), 'a': out}


def value(rng, m):
    h = rng.randint(-9, 9) / 2
    if rng.random() < 0.12:
        return None
    if m == 'primitive':
        return rng.choice([rng.randint(-5, 5), 0, h, True, False, 'abc', '', [1, 2], (0, 1.5), {'a': 1}])
    if m == 'numpy':
        sh = rng.choice([(), (0,), (1,), (3,), (2, 2)])
        return np.array(np.random.randint(-9, 9, sh) / 2 if rng.random() < 0.6 else np.random.randint(0, 9, sh))
    if m == 'torch':
        t = torch.tensor(np.random.randint(-9, 9, rng.choice([(1,), (3,), (2, 2)])) / 2, dtype=rng.choice([torch.float32, torch.float64]))
        return rng.choice([t, t.long(), torch.nn.Parameter(t), [t, t + 1], {'a': t}])
    if m == 'pickle':
        return rng.choice([{(1, 2): [h, 'x']}, {3, 4}, [np.arange(3), 'y'], (1, None), h, {}, [], 'str', 0, False, np.zeros(2)])
    if m == 'json':
        return rng.choice([{'a': [1, h], 'b': {'c': None}}, [1, 'x', True], 'é', 0, h, False, [], {}])
    return rng.choice([1, 'gone', [2]])


def tree(rng, depth):
    attrs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 5])):
        f = rng.random() < 0.35
        o = rng.random()
        if depth and o < 0.3:
            attrs.append(('mushroom', f, tree(rng, depth - 1) if rng.random() < 0.9 else None))
        elif depth and o < 0.45:
            n = rng.choice([0, 1, 2, 2, 3, 11])
            attrs.append(('mushroom', f, [tree(rng, 0 if n > 2 else depth - 1) for _ in range(n)]))
        else:
            m = rng.choice(METHODS)
            attrs.append((m, f, value(rng, m)))
    return rng.choice(CLASSES)(attrs)


class Drv:
    def __init__(self, rng):
        self.rng = rng
        self.dir = tempfile.mkdtemp(prefix='vser_')
        self.objs, self.ev = [], []

    def path(self, f):
        p = os.path.join(self.dir, 'n%d' % f, 'deep', 'o%d.msh' % f) if f % 2 else os.path.join(self.dir, 'o%d' % f)
        return Path(p) if self.rng.random() < 0.5 else p

    def rec(self, **e):
        self.ev.append(dict(e, all=[read(x) for x in self.objs]))

    def new(self, x):
        t = read(x)
        self.objs.append(x)
        self.rec(op='new', tree=t)

    def save(self, d, f, full):
        self.objs[d - 1].save(self.path(f), full_save=bool(full))
        self.rec(op='save', d=d, f=f, full=full)

    def load(self, f):
        cls = self.rng.choice([Serializable, Node])
        self.objs.append(cls.load(self.path(f)))
        self.rec(op='load', f=f)

    def copy(self, d):
        self.objs.append(self.objs[d - 1].copy())
        self.rec(op='copy', d=d)

    def set(self, d, path, j):
        x = self.objs[d - 1]
        for a, q in path:
            y = getattr(x, '_x%d' % (a - 1))
            x = y[q - 1] if isinstance(y, list) else y
        name = '_x%d' % (j - 1)
        m = x._save_attributes[name].rstrip('!')
        val = x.__dict__.get(name)
        if isinstance(val, np.ndarray) and val.size and self.rng.random() < 0.7:
            val += 1                                    # in place
        elif isinstance(val, torch.Tensor) and self.rng.random() < 0.7:
            with torch.no_grad():
                val += 1
        elif isinstance(val, list) and m in ('pickle', 'json', 'primitive') and self.rng.random() < 0.7:
            val.append(7)
        else:
            setattr(x, name, value(self.rng, m))
        self.rec(op='set', d=d, path=path, j=j, y=read(x)['a'][j - 1])

    def any_place(self, d):
        x, path = self.objs[d - 1], []
        while True:
            n = len([k for k in x.__dict__ if k.startswith('_x')])
            subs = []
            plain = []
            for a in range(n):
                y = getattr(x, '_x%d' % a)
                if isinstance(y, Serializable):
                    subs.append((a + 1, 1, y))
                elif x._save_attributes['_x%d' % a].startswith('mushroom'):
                    subs += [(a + 1, q + 1, z) for q, z in enumerate(y or [])]
                else:
                    plain.append(a + 1)
            if subs and (not plain or self.rng.random() < 0.5):
                a, q, x = self.rng.choice(subs)
                path.append([a, q])
            elif plain:
                return path, self.rng.choice(plain)
            else:
                return None


def seeded(seed):
    np.random.seed(seed % (2 ** 31))
    torch.manual_seed(seed)
    return random.Random(seed)


def run(seed):
    rng = seeded(seed)
    d = Drv(rng)
    try:
        with guarded(d.ev, 30):
            for _ in range(rng.randint(1, 2)):
                d.new(tree(rng, rng.choice([0, 1, 2, 2, 3])))
            files = set()
            for _ in range(rng.randint(3, 10)):
                o = rng.random()
                if o < 0.4:
                    f = rng.randint(1, 3)
                    d.save(rng.randint(1, len(d.objs)), f, rng.randint(0, 1))
                    files.add(f)
                elif o < 0.7 and files and len(d.objs) < 6:
                    d.load(rng.choice(sorted(files)))
                elif o < 0.8 and len(d.objs) < 6:
                    d.copy(rng.randint(1, len(d.objs)))
                elif o < 0.97:
                    k = rng.randint(1, len(d.objs))
                    p = d.any_place(k)
                    if p:
                        d.set(k, *p)
                else:
                    try:
                        Serializable.load(os.path.join(d.dir, 'nothing'))
                        ok = 0
                    except ValueError:
                        ok = 1
                    d.ev.append({'op': 'missing', 'raised': ok})
    finally:
        shutil.rmtree(d.dir, ignore_errors=True)
    d.ev.append({'op': 'end'})
    return {'cfg': {'files': 3}, 'ev': d.ev, 'kind': 'serial seed=%d' % seed}


VALS = {'primitive': lambda x: x, 'numpy': lambda x: np.array([x]), 'torch': lambda x: torch.tensor([float(x)]),
        'pickle': lambda x: {'k': x}, 'none': lambda x: x}


def replay(beh, k):
    """operations enumerated by TLC on the two trees of MCSerial"""
    rng = seeded(k)
    d = Drv(rng)
    leaf = lambda x: Node([('primitive', False, x), ('numpy', True, np.array([x + 1]))])
    try:
        with guarded(d.ev, 30):
            d.new(Node2([('pickle', False, {'k': 5}), ('none', False, 6), ('mushroom', False, leaf(10)), ('mushroom', True, leaf(20))]))
            d.new(Node2([('torch', True, torch.tensor([7.])), ('mushroom', False, [leaf(30), leaf(40)]), ('mushroom', False, [])]))
            for o in beh:
                if o['op'] == 'save':
                    d.save(o['d'], o['f'], o['full'])
                elif o['op'] == 'load':
                    d.load(o['f'])
                elif o['op'] == 'copy':
                    d.copy(o['d'])
                else:
                    d.set(o['d'], [list(p) for p in o['path']], o['j'])
    finally:
        shutil.rmtree(d.dir, ignore_errors=True)
    d.ev.append({'op': 'end'})
    return {'cfg': {'files': 2}, 'ev': d.ev, 'kind': 'serial behaviour %d' % k}


def check(chk):
    beh = chk.generated('MCSerial', 'MCSerial_thorough' if chk.thorough else 'MCSerial', workers=4)
    rng = random.Random(chk.seed)
    lim = 6000 if chk.thorough else 700
    pick = beh if len(beh) <= lim else rng.sample(beh, lim)
    trs = collect(lambda x: replay(x[1], x[0]), list(enumerate(pick)))
    chk.replayed += len(trs)
    trs += collect(lambda k: run(chk.seed * 100008 + k), range(4000 if chk.thorough else 500))
    chk.validate('TraceSerial', trs)
