"""O02: Gaussian distributions over parameters; MORE and ePPO (part of O01) updates of real distributions."""
import math
import random

import numpy as np
import torch

from mushroom_rl.algorithms.policy_search import MORE, ePPO
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.distributions import (CholeskyGaussianTorchDistribution, DiagonalGaussianTorchDistribution, Distribution,
                                       GaussianCholeskyDistribution, GaussianDiagonalDistribution, GaussianDistribution)
from mushroom_rl.policy import DeterministicPolicy
from mushroom_rl.rl_utils.spaces import Box

from guard import guarded
from lib import NAN, collect, enc, encf
from p_bbo import E1, E2, reload
from p_onpolicy import EX

LN = [round(1e4 * math.log(k)) for k in range(1, 41)]


def fac(l):
    L = np.zeros((1, 1)) if len(l) == 1 else np.zeros((2, 2))
    L[np.tril_indices(len(L))] = np.array(l) / 4
    return L


def make(k, m, l):
    L, m = fac(l), np.array(m) / 4
    if k == 'full':
        return GaussianDistribution(m, L @ L.T)
    if k == 'diag':
        return GaussianDiagonalDistribution(m, np.diag(L).copy())
    if k == 'chol':
        return GaussianCholeskyDistribution(m, L @ L.T)
    if k == 'tdiag':
        return DiagonalGaussianTorchDistribution(torch.tensor(m), torch.tensor(np.diag(L).copy()))
    return CholeskyGaussianTorchDistribution(torch.tensor(m), torch.tensor(L @ L.T))


def vec(k, m, l):
    D = len(m)
    piv = [l[0]] if D == 1 else [l[0], l[2]]
    v = [x / 4 for x in m] + ([] if k == 'full' else [x / 4 for x in piv] if k == 'diag' else [math.log(x / 4) for x in piv] if k == 'tdiag' else [x / 4 for x in l])
    return torch.tensor(v, dtype=torch.float64) if k[0] == 't' else np.array(v)


def f4(xs):
    return [encf(v, 10000) for v in np.asarray(xs.detach() if hasattr(xs, 'detach') else xs).ravel()]


def run_dist(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    torch.manual_seed(seed)
    k = ['full', 'diag', 'chol', 'tdiag', 'tchol'][seed % 5]
    D = rng.randint(1, 2)

    def pars():
        m = [rng.randint(-8, 8) for _ in range(D)]
        l = [rng.randint(1, 6)] if D == 1 else [rng.randint(1, 6), 0 if k in ('diag', 'tdiag') else rng.randint(-4, 4), rng.randint(1, 6)]
        return m, l
    m, l = pars()
    c = {'k': k, 'm': m, 'l': l, 'ln': LN, 'e1': E1, 'e2': E2}
    ev = []
    tt = k[0] == 't'
    arr = (lambda v: torch.tensor(v, dtype=torch.float64)) if tt else (lambda v: np.array(v))
    with guarded(ev, 60):
        d = make(k, m, l)
        for _ in range(rng.randint(4, 9)):
            op = rng.choice(['set', 'get', 'pdf', 'pdf', 'samples', 'mle', 'con', 'load'])
            if op == 'load':
                d = reload(d)
            if op == 'set':
                m, l2 = pars()
                l = l if k == 'full' else l2
                d.set_parameters(vec(k, m, l))
                ev.append({'op': 'set', 'm': m, 'l': l})
            if op == 'get':
                ev.append({'op': 'get', 'par': f4(d.get_parameters()), 'size': enc(d.parameters_size), 'mean': f4(d.mean()), 'ent': encf(d.entropy(), 10000)})
            if op == 'pdf':
                x = [v + rng.randint(-10, 10) for v in m]
                t = arr([v / 4 for v in x])
                lp, p = float(d.log_pdf(t)), float(d(t))
                e = {'op': 'pdf', 'x': x, 'lp': encf(lp, 10000), 'cons': int(abs(p - math.exp(lp)) <= 1e-6 * max(p, 1e-12)), 'grad': [], 'diff': 1}
                if not tt:
                    g = d.diff_log(t)
                    e['grad'] = [encf(v, 1000) for v in np.ravel(g)]
                    e['diff'] = int(np.allclose(d.diff(t), p * g, rtol=1e-8, atol=1e-300))
                ev.append(e)
            if op == 'samples':
                n = 900
                X = np.array([np.asarray(d.sample()) for _ in range(n)])
                if X.shape != (n, D):
                    ev.append({'op': 'exc', 'what': 'shape of samples %s' % (X.shape,)})
                    break
                X = 4 * X - np.array(m)
                C = X.T @ X / n
                ev.append({'op': 'samples', 'n': n, 's1': [encf(v, 1000) for v in X.mean(0)], 's2': [[encf(v, 1000) for v in r] for r in C]})
            if op == 'mle' and not tt:
                n = rng.randint(3, 8)
                th = [[v + rng.randint(-8, 8) for v in m] for _ in range(n)]
                w = [rng.randint(0, 4) for _ in range(n)] if rng.random() < .6 else []
                if w and rng.random() < .4:         # one weight dominates
                    w = [rng.randint(0, 1) for _ in range(n)]
                    w[rng.randrange(n)] = rng.randint(5, 12)
                if w and sum(1 for v in w if v) < 2:
                    continue
                f = rng.choice([1., 1., .05, 3.])
                A = np.array(th)[np.array(w, dtype=bool)] if w else np.array(th)
                if k != 'full' and (np.linalg.matrix_rank(A - A[0]) < D or (np.std(A, axis=0) == 0).any()):
                    continue
                d.mle(np.array(th) / 4, *([f * np.array(w, dtype=float)] if w else []))
                ev.append({'op': 'mle', 'th': th, 'w': w, 'par': f4(d.get_parameters())})
                d = make(k, m, l)
            if op == 'con' and not tt and D == 1 and l[0] >= 2:
                n = rng.randint(5, 9)
                th = np.array([[v + rng.randint(-6, 6) for v in m] for _ in range(n)]) / 4
                w = np.array([rng.randint(1, 4) / 4 for _ in range(n)])
                eps, kap = rng.choice([50, 200, 500]), rng.choice([50, 300, 1000])
                try:
                    d.con_wmle(th, w / w.max(), eps / 1000, kap / 1000)
                    ev.append({'op': 'con', 'eps': eps, 'kap': kap, 'par': f4(d.get_parameters())})
                except np.linalg.LinAlgError:     # the numerical solver of the dual found no solution
                    pass
                d = make(k, m, l)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'dist %s seed=%d' % (k, seed)}


def ddata(ag, mi, th, J, backend='numpy'):
    a = (lambda v: torch.tensor(v)) if backend == 'torch' else (lambda v: np.array(v))
    ds = Dataset.generate(mi, ag.info, n_steps=len(J))
    for t, j in zip(th, J):
        ds.append_theta(a([float(t)]))
        ds.append((a([0.]), a([0.]), float(j), a([0.]), True, True), {})
    return ds


def lin():
    return DeterministicPolicy(Regressor(LinearApproximator, input_shape=(1,), output_shape=(1,)))


def run_more(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    m, l = [rng.randint(-8, 8)], [rng.choice([2, 4, 8])]
    c = {'k': 'chol', 'm': m, 'l': l, 'ln': LN, 'e1': E1, 'e2': E2}
    ev = []
    mi = MDPInfo(Box(-9, 9, (1,)), Box(-99, 99, (1,)), .5, 5)
    with guarded(ev, 60):
        for _ in range(2):
            eps, kap, h0, t = rng.choice([50, 200, 500]), rng.choice([50, 90, 99]), rng.choice([-5, -3, -1]), rng.randint(-10, 10)
            ag = MORE(mi, make('chol', m, l), lin(), eps / 1000, h0=h0, kappa=kap / 100)
            if rng.random() < .3:
                ag = reload(ag)
            n = rng.randint(6, 12)
            th = [m[0] / 4 + l[0] / 4 * x / 5 for x in rng.sample(range(-10, 11), n)]
            ag.fit(ddata(ag, mi, th, [-(x - t / 4) ** 2 * 2 + 3 for x in th]))
            ev.append({'op': 'more', 'eps': eps, 'kappa': kap, 'h0': h0, 't': t, 'par': f4(ag.distribution.get_parameters())})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'more seed=%d' % seed}


LOG = {}


class UserTorchDist(Distribution):
    """Distribution of the user with one parameter: N(m, 1)."""

    def __init__(self, m=0., h=0.):
        super().__init__()
        self._m = torch.nn.Parameter(torch.tensor([m], dtype=torch.float32))
        self._h = h
        self._add_save_attr(_m='torch', _h='primitive')

    def sample(self, context=None):
        return (self._m + torch.randn(1)).detach()

    def mean(self, context=None):
        return self._m.detach()

    def log_pdf(self, theta, context=None):
        LOG['lp'].append([LOG['ids'].get(round(float(v) * 4), 0) for v in torch.as_tensor(theta).reshape(-1)])
        return -.5 * ((torch.as_tensor(theta).float().reshape(len(theta), -1)[:, 0] - self._m[0]) ** 2)

    def entropy(self, context=None):
        return (self._h * self._m).sum()

    def parameters(self):
        return [self._m]


def run_eppo(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    torch.manual_seed(seed)
    th0 = rng.randint(-4, 4) * 2500
    c = {'k': 'ppo', 'g': 2, 'l': 0, 'th': th0, 'lr': rng.randint(1, 12), 'ent': rng.choice([0, 0, 1, 2]), 'h': rng.randint(-2, 2), 'ex': EX,
         'eps': rng.choice([100, 200, 300]), 'bsz': rng.randint(2, 6), 'ep': rng.randint(1, 3), 'clip': 0, 'kl': 0, 'ls': 1}
    ev = []
    mi = MDPInfo(Box(-9, 9, (1,)), Box(-99, 99, (1,)), .5, 5, backend='torch')
    with guarded(ev, 60):
        ag = ePPO(mi, UserTorchDist(th0 / 10000, float(c['h'])), lin(), {'class': torch.optim.SGD, 'params': {'lr': c['lr'] / 64}}, c['ep'], c['bsz'], c['eps'] / 1000,
                  ent_coeff=c['ent'] / 8)
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .2:
                ag = reload(ag)
            n = rng.randint(3, 8)
            a = rng.sample(range(-12, 13), n)
            J = [rng.randint(-5, 5) for _ in range(n)]
            LOG.update(lp=[], ids={v: i + 1 for i, v in enumerate(a)})
            e = {'op': 'epfit', 'x': [1] * n, 'a': a, 'r': J, 'th0': encf(ag.distribution.mean(), 10000)}
            ag.fit(ddata(ag, mi, [v / 4 for v in a], J, 'torch'))
            e['th1'] = encf(ag.distribution.mean(), 10000)
            e['bs'] = LOG['lp'][1:]
            if abs(e['th1']) > 60000:
                break
            ev.append(e)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'eppo seed=%d' % seed}


def check(chk):
    chk.model('MCDist', 'MCDist_thorough' if chk.thorough else 'MCDist')
    chk.validate('TraceDist', collect(lambda k: run_dist(chk.seed * 100129 + k), range(3000 if chk.thorough else 350)))


def check_bbo(chk):
    from p_bbo import run_bbo
    chk.model('MCBBO', 'MCBBO_thorough' if chk.thorough else 'MCBBO')
    chk.validate('TraceBBO', collect(lambda k: run_bbo(chk.seed * 100151 + k), range(2000 if chk.thorough else 260)))
    chk.validate('TraceDist', collect(lambda k: run_more(chk.seed * 100153 + k), range(400 if chk.thorough else 60)))
    chk.validate('TraceOnPolicy', collect(lambda k: run_eppo(chk.seed * 100169 + k), range(1500 if chk.thorough else 150)))
