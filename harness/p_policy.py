"""P02: exploration policies over discrete actions.  P03: policies over continuous actions."""
import math
import os
import random
import shutil
import tempfile

import numpy as np

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.table import Table
from mushroom_rl.core.serialization import Serializable
import torch

from mushroom_rl.policy import Boltzmann, BoltzmannTorchPolicy, EpsGreedy, Mellowmax
from mushroom_rl.rl_utils.parameters import LinearParameter, Parameter

from guard import guarded
from lib import NAN, collect, enc, encf

M = 1000000
EX = [round(M * math.exp(-k / 16)) for k in range(257)]


class QTab(Serializable):
    """Approximator of the action values, as a user could write it."""

    def __init__(self, input_shape, output_shape, **kw):
        self.t = np.zeros((kw['nS'], output_shape[0]))
        self._add_save_attr(t='numpy')

    def predict(self, s, **kw):
        return self.t[np.asarray(s)[:, 0].astype(int)].copy()


class TabNet(torch.nn.Module):
    def __init__(self, input_shape, output_shape, nS=1, **kw):
        super().__init__()
        self.t = torch.nn.Parameter(torch.zeros(nS, output_shape[0]))

    def forward(self, x, **kw):
        return self.t[x[:, 0].long()]


class TorchView:
    """A BoltzmannTorchPolicy seen through the interface of the numpy ones."""

    def __init__(self, pi):
        self.pi = pi

    def __call__(self, s, a=None):
        s = torch.tensor(np.array(s), dtype=torch.float32)
        if a is None:
            d = self.pi.distribution(torch.atleast_2d(s))
            return d.probs.detach().numpy()
        if np.random.rand() < .5:
            return self.pi(s, torch.tensor(np.array(a))).detach().numpy()
        lp = self.pi.log_prob_t(torch.stack([s, s]), torch.tensor(np.array([a, a])))
        assert tuple(lp.shape) == (2, 1)
        return lp[1].exp().detach().numpy()

    def draw_action(self, s, ps):
        a, ps = self.pi.draw_action(torch.tensor(np.array(s), dtype=torch.float32), ps)
        return a.numpy(), ps

    def save(self, *a, **k):
        self.pi.save(*a, **k)


def run_explore(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    k = ['eps', 'boltz', 'mellow', 'eps', 'boltz', 'btorch'][seed % 6]
    tor = k == 'btorch'
    k = 'boltz' if tor else k
    nS, nA = rng.randint(1, 3), rng.randint(2, 4)
    sch = {'k': 'const', 'a': 0, 'b': 0, 'n': 1, 'per': 'one'}
    if k == 'eps':
        sch['a'] = rng.choice([0, 1, 4, 8, 16])
    elif k == 'boltz':
        sch['a'] = rng.choice([0, 1, 2, 4, 8])
    else:
        sch['a'] = rng.choice([1, 2, 4, 8, 12])
    if rng.random() < .5:
        sch['k'], sch['n'], sch['per'] = 'linear', rng.randint(2, 4), 'one' if tor else rng.choice(['one', 's'])
        lo = 16 if k == 'eps' else 12
        st = rng.randint(1, 3) * rng.choice([-1, 1])
        sch['a'] = rng.randint(0, lo)
        sch['b'] = sch['a'] + st * sch['n']
        if not 0 <= sch['b'] <= lo:
            sch['b'] = sch['a'] - st * sch['n']
        if not 0 <= sch['b'] <= lo:
            sch['a'], sch['b'] = 0, sch['n']
        if k == 'mellow':                     # omega must not be zero
            sch['a'], sch['b'] = sch['a'] + 1, sch['b'] + 1
    c = {'k': k, 'nS': nS, 'nA': nA, 'sch': sch, 'ex': EX if k != 'eps' else []}
    ev = []
    with guarded(ev, 40):
        u = 16 if k == 'eps' else 4
        if sch['k'] == 'const':
            par = Parameter(sch['a'] / u) if (k == 'mellow' or rng.random() < .5) else sch['a'] / u
        else:
            par = LinearParameter(sch['a'] / u, threshold_value=sch['b'] / u, n=sch['n'], size=(1,) if sch['per'] == 'one' else (nS,))
        if k == 'mellow':
            pi = Mellowmax(par)
        elif tor:
            pi = BoltzmannTorchPolicy(TabNet, (1,), (nA,), .123, nS=nS)
            pi.set_beta(par)
            pi = TorchView(pi)
        else:
            pi = {'eps': EpsGreedy, 'boltz': Boltzmann}[k](.123)
            (pi.set_epsilon if k == 'eps' else pi.set_beta)(par)
        tab = rng.random() < .6
        if tab:
            q = Table((nS, nA))
            arr = lambda: pi.get_q().table
        else:
            q = Regressor(QTab, input_shape=(1,), output_shape=(nA,), n_actions=nA, nS=nS)
            arr = lambda: pi.get_q().model.t
        if tor:
            arr = lambda: next(iter(pi.pi.parameters())).data.numpy()
        else:
            pi.set_q(q)
        sta = lambda z: np.array([z])
        used = [0] * nS
        for _ in range(rng.randint(3, 10)):
            v = [[rng.randint(-4, 4) for _ in range(nA)] for _ in range(nS)]
            if rng.random() < .3:
                v[0] = [v[0][0]] * nA
            arr()[:] = np.array(v) / 4
            ev.append({'op': 'setq', 'q': v})
            if rng.random() < .1 and k != 'mellow':
                d = tempfile.mkdtemp(prefix='vpol_')
                try:
                    pi.save(os.path.join(d, 'p.msh'), full_save=True)
                    pi = Serializable.load(os.path.join(d, 'p.msh'))
                    if tor:
                        pi = TorchView(pi)
                finally:
                    shutil.rmtree(d, ignore_errors=True)
            for _ in range(rng.randint(1, 4)):
                z = rng.randrange(nS)
                o = rng.random()
                if o < .5:
                    ev.append(prob(pi, c, z, nA, v[z], sta))
                    used[z] += 0 if k == 'eps' else 1 + nA
                elif o < .6 and k != 'mellow' and not tor:
                    pi.update(sta(z))
                    ev.append({'op': 'update', 's': z + 1})
                    used[z] += 1
                else:
                    n = 1
                    if rng.random() < .4 and (sch['k'] == 'const' or (sum(used) if sch['per'] == 'one' else used[z]) >= sch['n']):
                        n = 250
                    e = {'op': 'draw', 's': z + 1, 'n': n, 'cnt': [0] * nA}
                    if k == 'mellow':
                        ev.append(prob(pi, c, z, nA, v[z], sta))
                        e['p'] = ev[-1]['p']
                        used[z] += 1 + nA
                    for _ in range(n):
                        a, _ = pi.draw_action(sta(z), None)
                        a = np.asarray(a)
                        if a.shape == (1,) and 0 <= int(a[0]) < nA and int(a[0]) == a[0]:
                            e['cnt'][int(a[0])] += 1
                    used[z] += n
                    ev.append(e)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'explore %s seed=%d' % ('btorch' if tor else k, seed)}


def prob(pi, c, z, nA, row, sta):
    p = np.asarray(pi(sta(z))).ravel()
    pa = [float(np.asarray(pi(sta(z), np.array([a]))).ravel()[0]) for a in range(nA)]
    w = 0
    if c['k'] == 'mellow' and len(p) == nA and max(row) > min(row) and p.min() > 0:
        i, j = int(np.argmax(row)), int(np.argmin(row))
        w = max(0, round(1000 * math.log(p[i] / p[j]) / ((row[i] - row[j]) / 4)))
    return {'op': 'prob', 's': z + 1, 'p': [encf(x, M) for x in p], 'pa': [encf(x, M) for x in pa], 'w': w}


def check_explore(chk):
    chk.model('MCExplore', 'MCExplore_thorough' if chk.thorough else 'MCExplore')
    n = 3000 if chk.thorough else 500
    chk.validate('TraceExplore', collect(lambda k: run_explore(chk.seed * 100019 + k), range(n)))
