"""D04: side information stays aligned with the steps it was reported with."""
import copy
import random

import numpy as np
import torch

from mushroom_rl.core.extra_info import ExtraInfo

from guard import Hang, from_repo, limit
from lib import collect, NAN, enc

KEYS = ['a', 'b', 'n_x', 'n_y_z', 'v']


def rows_of(info, n):
    """content through the public interface, on a copy so that looking does not parse the original"""
    info = copy.deepcopy(info)
    info.parse()
    d = dict(info)
    L = None
    for v in d.values():
        L = len(v) if L is None else L
        if len(v) != L:
            return [[[NAN]]]
    L = L or 0
    if set(d) - set(KEYS):
        return [[[NAN]]]
    out = []
    for k in range(L):
        row = []
        for j in range(n):
            vals = []
            for key in KEYS:
                if key not in d:
                    vals += [NAN, NAN] if key == 'v' else [NAN]
                    continue
                x = d[key][k] if n == 1 else d[key][k][j]
                if key == 'v':
                    x = np.asarray(x.detach() if hasattr(x, 'detach') else x).reshape(-1)
                    vals += [enc(x[0]), enc(x[1])] if x.size == 2 else [NAN, 1]
                else:
                    vals.append(enc(x))
            row.append(vals)
        out.append(row)
    return out


class Drv:
    def __init__(self, rng, bk, n):
        self.rng, self.bk, self.n = rng, bk, n
        self.ds, self.ns, self.ev, self.ids = [], [], [], 0
        self.form = rng.choice(['list', 'dict', 'mixed']) if n > 1 else 'one'
        # once a key has been seen missing steps are filled
        self.pmiss = rng.choice([0, 0.3])

    def nid(self):
        self.ids += 1
        return self.ids

    def arr(self, v):
        return torch.tensor(v, dtype=torch.float32) if self.bk == 'torch' else np.array(v, dtype=float)

    def all(self):
        return [rows_of(d, n) for d, n in zip(self.ds, self.ns)]

    def one(self):
        vals = [self.nid()] + [self.nid() if self.rng.random() >= self.pmiss else NAN for _ in range(3)]
        if self.rng.random() >= self.pmiss:
            vals += [self.nid(), self.nid()]
        else:
            vals += [NAN, NAN]
        return vals

    def nest(self, get):
        d = {}
        for k, key in enumerate(['a', 'b']):
            if get(k) is not None:
                d[key] = get(k)
        if get(2) is not None:
            d.setdefault('n', {})['x'] = get(2)
        if get(3) is not None:
            d.setdefault('n', {}).setdefault('y', {})['z'] = get(3)
        if get(4) is not None:
            d['v'] = get(4)
        return d

    def append(self, i):
        n = self.ns[i]
        rows = [self.one() for _ in range(n)]
        if n > 1 and (self.form == 'dict' or (self.form == 'mixed' and self.rng.random() < 0.5)):
            # one dictionary of arrays: a key is either there for all environments or for none
            base = rows[0]
            for r in rows[1:]:
                for k in range(6):
                    if base[k] == NAN:
                        r[k] = NAN
                    elif r[k] == NAN:
                        r[k] = self.nid()

            def get(k):
                if base[k] == NAN:
                    return None
                if k == 4:
                    return self.arr([[float(r[4]), float(r[5])] for r in rows])
                return self.arr([float(r[k]) for r in rows])
            info = self.nest(get)
        else:
            ds = []
            for r in rows:
                def get(k):
                    if r[k] == NAN:
                        return None
                    if k == 4:
                        return self.arr([float(r[4]), float(r[5])])
                    return float(r[k]) if self.rng.random() < 0.8 else int(r[k])
                ds.append(self.nest(get))
            info = ds[0] if n == 1 else ds
        self.ds[i].append(info)
        self.ev.append({'op': 'append', 'd': i + 1, 'row': rows, 'all': self.all()})

    def step(self):
        rng = self.rng
        if not self.ds or (len(self.ds) < 6 and rng.random() < 0.08):
            self.ds.append(ExtraInfo(self.n, self.bk))
            self.ns.append(self.n)
            self.ev.append({'op': 'new', 'all': self.all()})
            return
        i = rng.randrange(len(self.ds))
        d, n = self.ds[i], self.ns[i]
        L = len(rows_of(d, n))
        op = rng.choice(['append'] * 6 + ['parse', 'parse', 'view', 'viewc', 'idx', 'copy', 'add', 'add', 'clear', 'flatten', 'write'])
        if len(self.ds) >= 7 and op in ('view', 'viewc', 'idx', 'copy', 'add', 'flatten'):
            op = 'parse'
        bk = 'torch' if self.bk == 'torch' else 'numpy'
        if op == 'append':
            if L < 9 and n == self.n:
                self.append(i)
        elif op == 'parse':
            d.parse()
            kind = torch.Tensor if self.bk == 'torch' else np.ndarray
            self.ev.append({'op': 'parse', 'd': i + 1, 'kind': int(all(isinstance(v, kind) for v in dict(d).values())),
                            'all': self.all()})
        elif op in ('view', 'viewc'):
            sl = slice(rng.choice([None, rng.randint(-L, L)]), rng.choice([None, rng.randint(-L, L)]))
            self.ds.append(d.get_view(sl, copy=op == 'viewc'))
            self.ns.append(n)
            self.ev.append({'op': 'take', 'd': i + 1, 'idx': [k + 1 for k in range(*sl.indices(L))], 'all': self.all()})
        elif op == 'idx' and L:
            idx = [rng.randrange(L) for _ in range(rng.randint(1, 4))]
            ix = np.array(idx) if rng.random() < 0.5 else torch.tensor(idx)
            self.ds.append(d.get_view(ix, copy=rng.random() < 0.5))
            self.ns.append(n)
            self.ev.append({'op': 'take', 'd': i + 1, 'idx': [k + 1 for k in idx], 'all': self.all()})
        elif op == 'copy':
            self.ds.append(d.copy())
            self.ns.append(n)
            self.ev.append({'op': 'copy', 'd': i + 1, 'all': self.all()})
        elif op == 'add':
            j = rng.choice([k for k in range(len(self.ds)) if self.ns[k] == n])
            if L + len(rows_of(self.ds[j], n)) > 20:
                return
            self.ds.append(d + self.ds[j])
            self.ns.append(n)
            self.ev.append({'op': 'add', 'a': i + 1, 'b': j + 1, 'all': self.all()})
        elif op == 'clear':
            d.clear()
            self.ev.append({'op': 'clear', 'd': i + 1, 'all': self.all()})
        elif op == 'flatten' and n > 1 and L:
            full = rng.random() < 0.3
            m = [[1 if full or rng.random() < 0.6 else 0 for _ in range(n)] for _ in range(L)]
            if full and rng.random() < 0.5:
                f = d.flatten()
            else:
                mm = np.array(m, dtype=bool)
                f = d.flatten(torch.from_numpy(mm) if self.bk == 'torch' else mm)
            self.ds.append(f)
            self.ns.append(1)
            self.ev.append({'op': 'flatten', 'd': i + 1, 'mask': m, 'n': n, 'all': self.all()})
        elif op == 'write':
            ref = 0
            try:
                k = rng.randint(0, 5)
                if k == 0:
                    d['a'] = 3
                elif k == 1:
                    del d['a']
                elif k == 2:
                    d.pop('a')
                elif k == 3:
                    d.update({'a': 1})
                elif k == 4:
                    d.setdefault('zz', 1)
                else:
                    d.popitem()
            except TypeError:
                ref = 1
            self.ev.append({'op': 'write', 'd': i + 1, 'refused': ref, 'all': self.all()})


def run(seed, bk, n):
    rng = random.Random(seed)
    drv = Drv(rng, bk, n)
    try:
        with limit(60):
            for _ in range(28):
                drv.step()
    except Hang as x:
        drv.ev.append({'op': 'exc', 'what': str(x)})
    except Exception as x:
        if not from_repo(x):
            raise
        import traceback
        drv.ev.append({'op': 'exc', 'what': traceback.format_exc()[-900:]})
    drv.ev.append({'op': 'end'})
    return {'cfg': {'n': n}, 'ev': drv.ev, 'kind': 'info %s n=%d %s' % (bk, n, drv.form)}


def check(chk):
    chk.model('MCExtraInfo', 'MCExtraInfo')
    base = chk.seed * 200003
    traces = collect(lambda k: run(base + k, ['numpy', 'torch', 'list'][k % 3], [1, 2, 3][(k // 3) % 3]),
                     range(400 if not chk.thorough else 4000), 20)
    chk.validate('TraceExtraInfo', traces)
