"""D01, D02, D03: datasets as sequences of transitions, on the three backends."""
import random
from copy import deepcopy

import numpy as np
import torch

from mushroom_rl.core import Dataset
from mushroom_rl.core.dataset import DatasetInfo
from mushroom_rl.core.extra_info import ExtraInfo

from guard import Hang, from_repo, limit
from lib import NAN, collect, enc, flag

GAMMAS = {0: 0.0, 1: 1.0, 2: 0.5, 4: 0.25}


def val(x):
    return -1 if x is None else enc(x)


def content(d):
    n = len(d)
    st, ac, re, ns, ab, la = d.state, d.action, d.reward, d.next_state, d.absorbing, d.last
    if d.is_stateful:
        ps, nps = d.policy_state, d.policy_next_state
    else:
        ps = nps = [None] * n
    for a in (st, ac, re, ns, ab, la, ps, nps):
        if len(a) != n:
            return [[NAN]]
    inf = deepcopy(d.info)
    inf.parse()
    inf = dict(inf)
    k = inf['k'] if 'k' in inf else ([] if n == 0 else [np.nan] * n)
    if len(k) != n:
        return [[NAN]]
    return [[val(st[i]), val(ac[i]), enc(re[i]), val(ns[i]), flag(ab[i]), flag(la[i]), val(ps[i]), val(nps[i]), enc(k[i])]
            for i in range(n)]


class Driver:
    def __init__(self, rng, backend, stateful, conv):
        self.rng, self.bk, self.sf, self.conv = rng, backend, stateful, conv
        self.ds, self.bks, self.caps, self.ev = [], [], [], []
        self.ids = 0
        self.g0 = rng.choice([1, 2])
        self.grp = []       # datasets that may share memory with each other (plain views and conversions)
        self.ep = {}

    def nid(self):
        self.ids += 1
        return self.ids

    def arr(self, v, bk):
        return torch.tensor([float(v)]) if bk == 'torch' else np.array([float(v)])

    def all(self):
        return [content(d) for d in self.ds]

    def new(self):
        bk = self.bk
        dt = torch.float32 if bk == 'torch' else float
        info = DatasetInfo(bk, None, 6, GAMMAS[self.g0], (1,), dt, (1,), dt, (1,) if self.sf else None)
        cap = self.rng.randint(1, 14)
        if self.rng.random() < 0.3:
            cap = 6 * self.rng.randint(1, 2)
            d = Dataset(info, n_episodes=cap // 6)
        else:
            d = Dataset(info, n_steps=cap)
        self.add(d, bk, cap)
        self.ev.append({'op': 'new', 'all': self.all()})

    def add(self, d, bk, cap, src=None):
        self.ds.append(d)
        self.grp.append(len(self.grp) if src is None else self.grp[src])
        self.bks.append(bk)
        self.caps.append(cap)
        self.ep[len(self.ds) - 1] = 0

    def smp(self, i):
        self.ep[i] += 1
        ab = self.rng.random() < 0.2
        last = ab or self.ep[i] >= 6 or self.rng.random() < 0.1
        if last:
            self.ep[i] = 0
        p = [self.nid(), self.nid()] if self.sf else [-1, -1]
        return [self.nid(), self.nid(), self.rng.randint(-3, 5), self.nid(), int(ab), int(last)] + p + [self.nid()]

    def append(self, i):
        s = self.smp(i)
        bk = self.bks[i]
        a = lambda v: None if v == -1 else self.arr(v, bk)
        self.ds[i].append((a(s[0]), a(s[1]), float(s[2]), a(s[3]), bool(s[4]), bool(s[5]), a(s[6]), a(s[7])), {'k': float(s[8])})
        self.ev.append({'op': 'append', 'd': i + 1, 'smp': s, 'all': self.all()})

    def step(self):
        rng = self.rng
        if not self.ds or (rng.random() < 0.06 and len(self.ds) < 7):
            return self.new()
        i = rng.randrange(len(self.ds))
        d, bk = self.ds[i], self.bks[i]
        n = len(d)
        op = rng.choice(['append'] * 6 + ['burst'] * 3 + ['clear', 'slice', 'slice', 'slicec', 'take', 'add', 'first', 'rand', 'item',
                         'stats', 'stats', 'stats', 'load', 'copy', 'poke', 'poke'] + ['conv'] * (3 if self.conv else 1))
        if len(self.ds) >= 7 and op in ('slice', 'slicec', 'copy', 'take', 'add', 'first', 'rand', 'conv', 'load'):
            op = 'stats'
        if op == 'append':
            if n < self.caps[i]:
                self.append(i)
        elif op == 'burst':
            for _ in range(rng.randint(2, 8)):
                if len(self.ds[i]) < self.caps[i]:
                    self.append(i)
        elif op == 'clear':
            if self.caps[i] > n - 1 and self.caps[i] > 0:
                d.clear()
                self.ep[i] = 0
                self.ev.append({'op': 'clear', 'd': i + 1, 'all': self.all()})
        elif op in ('slice', 'slicec'):
            sl = slice(rng.choice([None, rng.randint(-n - 2, n + 2)]), rng.choice([None, rng.randint(-n - 2, n + 2)]))
            idx = list(range(*sl.indices(n)))
            if op == 'slicec':
                v = d.get_view(sl, copy=True)
                cap = self.caps[i] if self.caps[i] >= n else n
                if bk == 'list':
                    cap = 20
            else:
                v = d[sl]
                cap = 0
            self.add(v, bk, cap, i if op == 'slice' else None)
            if cap and idx:
                # a copied view keeps room to append: its open episode continues
                self.ep[len(self.ds) - 1] = 5
            self.ev.append({'op': 'take', 'd': i + 1, 'idx': [k + 1 for k in idx], 'all': self.all()})
        elif op == 'take' and n > 0:
            idx = [rng.randrange(n) for _ in range(rng.randint(1, 5))]
            ix = np.array(idx) if bk != 'torch' or rng.random() < 0.5 else torch.tensor(idx)
            cp = rng.random() < 0.3 and len(idx) <= self.caps[i] and bk != 'list'
            v = d.get_view(ix, copy=True) if cp else d[ix]
            self.add(v, bk, 0, None if cp else i)
            self.ev.append({'op': 'take', 'd': i + 1, 'idx': [k + 1 for k in idx], 'all': self.all()})
        elif op == 'add':
            j = rng.choice([k for k in range(len(self.ds)) if self.bks[k] == bk])
            if len(d) + len(self.ds[j]) == 0:
                return
            v = d + self.ds[j]
            self.add(v, bk, 0)
            self.ev.append({'op': 'add', 'a': i + 1, 'b': j + 1, 'all': self.all()})
        elif op == 'first':
            ne = sum(1 for x in content(d) if x[5] == 1)
            if ne == 0:
                return
            k = rng.randint(1, ne)
            v = d.select_first_episodes(k)
            self.add(v, bk, 0, i)
            self.ev.append({'op': 'first', 'd': i + 1, 'n': k, 'all': self.all()})
        elif op == 'rand' and n > 0:
            k = rng.randint(1, n + 2)
            v = d.select_random_samples(k)
            self.add(v, bk, 0, i)
            self.ev.append({'op': 'rand', 'd': i + 1, 'n': k, 'all': self.all()})
        elif op == 'load':
            m = rng.randint(1, 9)
            self.ep[-1] = 0
            ss = [self.smp(-1) for _ in range(m)]
            f = lambda k: np.array([[float(s[k])] for s in ss])
            dt = float
            kw = {}
            if self.sf:
                kw = dict(policy_state=f(6), policy_next_state=f(7))
            arrs = [f(0), f(1), f(2)[:, 0], f(3), f(4)[:, 0] == 1, f(5)[:, 0] == 1]
            if self.bk == 'torch' and rng.random() < 0.5:
                arrs = [torch.as_tensor(x) for x in arrs]
                kw = {k: torch.as_tensor(x) for k, x in kw.items()}
            inf = ExtraInfo(1, self.bk)
            for s in ss:
                inf.append({'k': float(s[8])})
            v = Dataset.from_array(*arrs, **kw, info=inf, gamma=GAMMAS[self.g0], backend=self.bk)
            self.add(v, self.bk, 0)
            self.ev.append({'op': 'load', 'smps': ss, 'all': self.all()})
        elif op == 'copy':
            self.add(d.copy(), bk, self.caps[i])
            self.ep[len(self.ds) - 1] = self.ep[i]
            self.ev.append({'op': 'take', 'd': i + 1, 'idx': list(range(1, n + 1)), 'all': self.all()})
        elif op == 'poke' and n > 0 and bk != 'list' and self.grp.count(self.grp[i]) == 1:
            k = rng.randrange(n)
            for a in (d.reward, d.state, d.action, d.next_state):
                a[k] = self.nid()
            for a in (d.absorbing, d.last):
                a[k] = not bool(a[k])
            if d.is_stateful:
                d.policy_state[k] = self.nid()
                d.policy_next_state[k] = self.nid()
            self.ep[i] = 5
            self.ev.append({'op': 'poke', 'd': i + 1, 'all': self.all()})
        elif op == 'item' and n > 0:
            k = rng.randrange(n)
            x = d[k]
            self.ev.append({'op': 'item', 'd': i + 1, 'k': k + 1,
                            'smp': [val(x[0]), val(x[1]), enc(x[2]), val(x[3]), flag(x[4]), flag(x[5])]})
        elif op == 'conv' and n > 0:
            to = rng.choice(['numpy', 'torch'] + (['list'] if bk != 'torch' else []))
            pt = 'numpy' if to == 'list' else to
            arrs = d.parse(to=pt)
            kind = torch.Tensor if pt == 'torch' else np.ndarray
            ok = all(isinstance(x, kind) for x in arrs)
            kw = {}
            if d.is_stateful:
                p = d.parse_policy_state(to=pt)
                ok = ok and all(isinstance(x, kind) for x in p)
                kw = dict(policy_state=p[0], policy_next_state=p[1])
            inf = d.info.copy()
            inf.parse(to=pt)
            v = Dataset.from_array(*arrs, info=inf, gamma=GAMMAS[self.g0], backend=to, **kw)
            self.add(v, to, 0, i)
            self.ev.append({'op': 'conv', 'd': i + 1, 'kinds': int(ok), 'all': self.all()})
        elif op == 'stats':
            longest = run_len = 0
            for x in content(d):
                run_len += 1
                longest = max(longest, run_len)
                if x[5] == 1:
                    run_len = 0
            gd = rng.choice([0, 1, 2, 4] if longest <= 7 else [0, 1, 2])
            if longest > 15:
                return
            S = 16384
            if n > 0:
                nep = int(d.n_episodes)
            else:
                nep = 0
            m = d.compute_metrics(GAMMAS[gd])
            k = int(m[4])
            met = [enc(m[0], S), enc(m[1], S), enc(float(m[2]) * k, S, 1e-4), enc(float(m[3]) * 2, S), k]
            self.ev.append({'op': 'stats', 'd': i + 1, 'gd': gd, 'g0': self.g0, 'len': len(d), 'nep': nep,
                            'lens': [enc(x) for x in d.episodes_length], 'init': [val(x) for x in d.get_init_states()],
                            'js': [enc(x, S) for x in d.compute_J(GAMMAS[gd])],
                            'und': [enc(x, S) for x in d.undiscounted_return],
                            'dis': [enc(x, S) for x in d.discounted_return], 'met': met})


def run(seed, backend, stateful, conv, n_ops):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    drv = Driver(rng, backend, stateful, conv)
    try:
        with limit(60):
            for _ in range(n_ops):
                drv.step()
    except Hang as x:
        drv.ev.append({'op': 'exc', 'what': str(x)})
    except Exception as x:
        if not from_repo(x):
            raise
        import traceback
        drv.ev.append({'op': 'exc', 'what': traceback.format_exc()[-800:]})
    drv.ev.append({'op': 'end'})
    return {'cfg': {'bk': backend, 'sf': int(stateful)}, 'ev': drv.ev, 'kind': 'dataset %s sf=%d' % (backend, stateful)}


ONLY = {'D01': ['ContentPreserved', 'ItemAccess', 'RandomSubset', 'Length', 'UnexpectedException', 'OUTSIDE_SPEC_DOMAIN'],
        'D02': ['Length', 'EpisodeCount', 'EpisodesLength', 'InitialStates', 'DiscountedReturnPerEpisode',
                'UndiscountedReturnPerEpisode', 'MetricsOfCompleteEpisodes', 'UnexpectedException', 'OUTSIDE_SPEC_DOMAIN'],
        'D03': []}


def replay_behaviour(b, bk):
    """Replay one operation sequence of MCDataset; after each operation all contents must be those of the model."""
    drv = Driver(random.Random(0), bk, False, False)
    dt = torch.float32 if bk == 'torch' else float
    ds = [Dataset(DatasetInfo(bk, None, 6, 0.5, (1,), dt, (1,), dt, None), n_steps=10) for _ in range(2)]
    for k, st in enumerate(b):
        o = st['o']
        if o['op'] == 'append':
            x = o['smp']
            a = lambda v: drv.arr(v, bk)
            ds[o['d'] - 1].append((a(x[0]), a(x[1]), float(x[2]), a(x[3]), bool(x[4]), bool(x[5]), None, None), {'k': float(x[8])})
        elif o['op'] == 'clear':
            ds[o['d'] - 1].clear()
        elif o['op'] == 'take':
            lo, hi = o['idx'][0] - 1, o['idx'][-1]
            ds.append(ds[o['d'] - 1][lo:hi])
        elif o['op'] == 'add':
            ds.append(ds[o['a'] - 1] + ds[o['b'] - 1])
        elif o['op'] == 'first':
            ds.append(ds[o['d'] - 1].select_first_episodes(o['n']))
        if [content(d) for d in ds] != st['all']:
            return k, [content(d) for d in ds]
    return None


def check(chk):
    if chk.prop in ('D01', 'D03'):
        beh = chk.generated('MCDataset', 'MCDataset_thorough' if chk.thorough else 'MCDataset', workers=4)
        random.Random(chk.seed).shuffle(beh)
        for k, b in enumerate(beh[:40000 if chk.thorough else 4000]):
            bk = ['numpy', 'torch', 'list'][k % 3]
            try:
                with limit(20):
                    r = replay_behaviour(b, bk)
            except Exception as x:
                if not from_repo(x):
                    raise
                r = (len(b), repr(x))
            except Hang as x:
                r = (len(b), repr(x))
            chk.replay()
            if r is not None:
                chk.violation('replay:' + bk, 'operation %d of a behaviour of MCDataset gives another content (%s backend)' % (r[0] + 1, bk),
                              {'behaviour': b, 'real': r[1]})
    else:
        chk.model('MCDataset', 'MCDataset')
    base = chk.seed * 100003 + {'D01': 1, 'D02': 2, 'D03': 3}[chk.prop] * 1000000
    n = 700 if not chk.thorough else 5000
    def one(k):
        tr = run(base + k, ['numpy', 'torch', 'list'][k % 3], (k // 3) % 3 == 0, chk.prop == 'D03', 30)
        tr['only'] = ONLY[chk.prop]
        return tr
    traces = collect(one, range(n), 20)
    chk.validate('TraceDataset', traces)
