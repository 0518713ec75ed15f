"""P03: policies over continuous actions."""
import math
import os
import random
import shutil
import tempfile

import numpy as np
import torch

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, TorchApproximator
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.policy import (ClippedGaussianPolicy, DeterministicPolicy, DiagonalGaussianPolicy, GaussianPolicy, GaussianTorchPolicy,
                                OrnsteinUhlenbeckPolicy, StateLogStdGaussianPolicy, StateStdGaussianPolicy)

from guard import guarded
from lib import NAN, collect, enc, encf

LN = [round(10000 * math.log(k)) for k in range(1, 129)]
EX = [round(10000 * math.exp(-m / 2)) for m in range(-6, 7)]
N = 400


class LinNet(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.l = torch.nn.Linear(input_shape[0], output_shape[0], bias=False)

    def forward(self, x, **kw):
        return self.l(x.float())


def lin(nF, nA):
    return Regressor(LinearApproximator, input_shape=(nF,), output_shape=(nA,))


def tlin(nF, nA):
    return Regressor(TorchApproximator, input_shape=(nF,), output_shape=(nA,), network=LinNet)


def cov(rng, nA):
    while True:
        if nA == 1:
            return [rng.randint(1, 6)]
        p, q, r = rng.randint(1, 6), rng.randint(-3, 3), rng.randint(1, 6)
        if p * r - q * q >= 1:
            return [p, q, r]


def mat(sg):
    return np.array([[sg[0]]], float) if len(sg) == 1 else np.array([[sg[0], sg[1]], [sg[1], sg[2]]], float)


def weights(rng, c):
    k, nA, nF = c['k'], c['nA'], c['nF']
    w = [rng.randint(-3, 3) for _ in range(nA * nF)]
    if k == 'diag':
        w += [rng.randint(1, 8) for _ in range(nA)]
    elif k == 'std':
        w += [rng.randint(-3, 3) for _ in range(nA * nF)]
    elif k == 'lstd':
        w += [rng.randint(-2, 2) for _ in range(nA * nF)]
    elif k == 'torch':
        w += [rng.randint(-4, 4) for _ in range(nA)]
    return w


def real(c, w):
    n = c['nA'] * c['nF']
    return np.array([v / 2 for v in w[:n]] + [v / 4 for v in w[n:]])


def run(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    torch.manual_seed(seed)
    k = ['full', 'diag', 'std', 'lstd', 'torch', 'clip', 'ou', 'det'][seed % 8]
    nA, nF = rng.randint(1, 2), rng.randint(1, 3)
    c = {'k': k, 'nA': nA, 'nF': nF, 'ln': LN, 'ex': EX, 'e': 0, 'lo': [], 'hi': [], 'wide': 0, 'x0': [], 'sg': [], 'w': []}
    c['w'] = weights(rng, c)
    ev = []
    T = lambda x: torch.tensor(x, dtype=torch.float32)
    with guarded(ev, 60):
        tor = k in ('torch', 'clip', 'ou')
        if k == 'full':
            c['sg'] = cov(rng, nA)
            pi = GaussianPolicy(lin(nF, nA), mat(c['sg']))
        elif k == 'diag':
            pi = DiagonalGaussianPolicy(lin(nF, nA), np.ones(nA))
        elif k == 'std':
            c['e'] = rng.randint(1, 8)
            pi = StateStdGaussianPolicy(lin(nF, nA), lin(nF, nA), eps=c['e'] / 16)
        elif k == 'lstd':
            pi = StateLogStdGaussianPolicy(lin(nF, nA), lin(nF, nA))
        elif k == 'torch':
            pi = GaussianTorchPolicy(LinNet, (nF,), (nA,), std_0=1.)
        elif k == 'clip':
            c['sg'] = cov(rng, nA)
            c['wide'] = int(rng.random() < .5)
            c['lo'] = [-4000] * nA if c['wide'] else [rng.randint(-8, 0) for _ in range(nA)]
            c['hi'] = [4000] * nA if c['wide'] else [rng.randint(1, 8) for _ in range(nA)]
            pi = ClippedGaussianPolicy(tlin(nF, nA), T(mat(c['sg'])), T(c['lo']) / 4, T(c['hi']) / 4)
        elif k == 'ou':
            sq, dt, th = [rng.randint(1, 3) for _ in range(nA)], rng.choice([1, 4]), rng.choice([1, 2, 4])
            c['sg'] = [v * v * dt for v in sq]                        # sigma = v/2 (v/4 * 2), dt = dt/4
            c['dr'] = 16 - th * dt                                     # theta = th/4
            x0 = None if rng.random() < .5 else [rng.randint(-8, 8) for _ in range(nA)]
            c['x0'] = [0] * nA if x0 is None else x0
            pi = OrnsteinUhlenbeckPolicy(tlin(nF, nA), T([v / 2 for v in sq]), th / 4, dt / 4, None if x0 is None else T(x0) / 4)
        else:
            pi = DeterministicPolicy(lin(nF, nA))
        W = lambda w: T(real(c, w)) if tor else real(c, w)
        w = c['w']
        pi.set_weights(W(w))
        sg = c['sg']
        for _ in range(rng.randint(3, 7)):
            o = rng.random()
            if o < .25:
                w = weights(rng, c)
                pi.set_weights(W(w))
                ev.append({'op': 'setw', 'w': w})
            elif o < .4 and k in ('full', 'diag'):
                if k == 'full':
                    sg = cov(rng, nA)
                    pi.set_sigma(mat(sg))
                    ev.append({'op': 'setsg', 'sg': sg})
                else:
                    w = w[:nA * nF] + [rng.randint(1, 8) for _ in range(nA)]
                    pi.set_std(np.array(w[-nA:]) / 4)
                    ev.append({'op': 'setw', 'w': w})
            elif o < .5:
                d = tempfile.mkdtemp(prefix='vgau_')
                try:
                    pi.save(os.path.join(d, 'p.msh'), full_save=True)
                    pi = Serializable.load(os.path.join(d, 'p.msh'))
                finally:
                    shutil.rmtree(d, ignore_errors=True)
            elif o < .65:
                g = np.asarray(pi.get_weights().detach() if tor else pi.get_weights(), float).ravel()
                n = nA * nF
                ev.append({'op': 'getw', 'w': [enc(v, 2) for v in g[:n]] + [enc(v, 4) for v in g[n:]],
                           'n': -1 if k == 'torch' else int(pi.weights_size)})
            x = draw_x(rng, c, w)
            if k in ('full', 'diag', 'std', 'lstd', 'torch'):
                for _ in range(2):
                    ev.append(evaluate(pi, rng, c, w, x))
            if k == 'det':
                a = np.asarray(pi.draw_action(np.array(x, float))[0]).ravel()
                e = {'op': 'det', 'x': x, 'a': [enc(v, 4) for v in a]}
                act = pi.draw_action(np.array(x, float))[0]
                e['p1'] = enc(pi(np.array(x, float), act), 1)
                e['p0'] = enc(pi(np.array(x, float), act + .25), 1)
                ev.append(e)
            elif k == 'ou':
                r = pi.reset()
                ev.append({'op': 'reset', 'v': [enc(v, 4) for v in r.ravel().tolist()]})
                ev.append(ou(pi, rng, c, w, x, T))
            elif rng.random() < .5:
                ev.append(draws(pi, c, w, x, tor))
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'continuous %s seed=%d' % (k, seed)}


def second(c, w, x):
    n, nF = c['nA'] * c['nF'], c['nF']
    return [sum(w[n + i * nF + j] * x[j] for j in range(nF)) for i in range(c['nA'])]


def draw_x(rng, c, w):
    while True:
        x = [rng.randint(-2, 2) for _ in range(c['nF'])]
        if c['k'] == 'std' and max(map(abs, second(c, w, x))) > 8:
            continue
        if c['k'] == 'lstd' and max(map(abs, second(c, w, x))) > 6:
            continue
        return x


def mean(c, w, x):
    nF = c['nF']
    return [2 * sum(w[i * nF + j] * x[j] for j in range(nF)) for i in range(c['nA'])]


def safelog(p):
    p = float(p)
    return encf(math.log(p), 10000) if p > 0 else NAN


def evaluate(pi, rng, c, w, x):
    k, nA = c['k'], c['nA']
    mu = mean(c, w, x)
    a = [m + rng.randint(-7, 7) for m in mu]
    e = {'op': 'eval', 'x': x, 'a': a, 'hase': 0, 'hasd': 0, 'p': 0, 'gd': [], 'en': 0}
    if k == 'torch':
        s, av = torch.tensor([x], dtype=torch.float32), torch.tensor([a], dtype=torch.float32) / 4
        lp = pi.log_prob_t(s, av)
        # in a batch, next to other samples
        s2, a2 = torch.cat([s * 0 + 1, s]), torch.cat([av + 1, av])
        lpb = pi.log_prob_t(s2, a2)
        ok = tuple(lp.shape) == (1, 1) and tuple(lpb.shape) == (2, 1) and abs(float(lpb[1, 0] - lp[0, 0])) < 1e-4
        pdf = float(pi(s[0], av[0]).detach())
        ok = ok and abs(pdf - math.exp(float(lp.detach()))) <= 1e-4 * max(pdf, 1)
        e['lp'] = encf(float(lp.detach()), 10000) if ok else NAN
        ps = list(pi.parameters())
        gr = torch.autograd.grad(lp.sum(), ps)
        e['g'] = [encf(float(v), 1000) for g in gr for v in g.ravel()]
        e['hase'], e['en'] = 1, encf(float(pi.entropy(s)), 10000)
        return e
    s, av = np.array(x, float), np.array(a, float) / 4
    p = pi(s, av)
    e['lp'] = safelog(p) if np.size(p) == 1 else NAN
    e['g'] = [encf(float(v), 1000) for v in np.asarray(pi.diff_log(s, av, None)).ravel()]
    e['gd'] = [encf(float(v), 1000) for v in np.asarray(pi.diff(s, av)).ravel()]
    e['p'] = encf(float(p), 10000)
    e['hasd'] = int(float(p) <= 1.5)
    return e


def moments(d):
    """d: (n, nA) deviations in quarters."""
    n = len(d)
    m = [encf(v, 1) for v in (100 * d.sum(0))]
    q2 = [[encf(10 * float((d[:, i] * d[:, j]).mean()), 1) for j in range(d.shape[1])] for i in range(d.shape[1])]
    return n, m, q2


def draws(pi, c, w, x, tor):
    nA = c['nA']
    acts, ok = [], 1
    for _ in range(N):
        s = torch.tensor(x, dtype=torch.float32) if tor else np.array(x, float)
        a, ps = pi.draw_action(s)
        a = np.asarray(a, float)
        if a.shape != (nA,) or ps is not None:
            ok = 0
            a = np.resize(a.ravel(), nA)
        acts.append(a * 4)
    acts = np.array(acts)
    n, m, q2 = moments(acts - np.array(mean(c, w, x)))
    e = {'op': 'draw', 'x': x, 'n': n, 'm': m, 'q2': q2, 'ok': ok, 'mn': [], 'mx': []}
    if c['k'] == 'clip':
        e['mn'], e['mx'] = [math.floor(v + 1e-4) for v in acts.min(0)], [math.ceil(v - 1e-4) for v in acts.max(0)]
    return e


def ou(pi, rng, c, w, x, T):
    nA = c['nA']
    ps = pi.reset()
    for _ in range(rng.randint(0, 3)):
        ps = pi.draw_action(T(x), ps)[1]
    mu = np.array(mean(c, w, x)) / 4
    d, am, ok = [], 0, 1
    p0 = ps.clone()
    for _ in range(N):
        a, nx = pi.draw_action(T(x), ps)
        if tuple(a.shape) != (nA,) or tuple(nx.shape) != (nA,):
            ok = 0
            break
        am = max(am, int(np.abs(np.asarray(a) - mu - np.asarray(nx)).max() > 1e-4))
        d.append((np.asarray(nx, float) - c['dr'] / 16 * np.asarray(p0, float)) * 4)
    n, m, q2 = moments(np.array(d)) if ok else (1, [0] * nA, [[0] * nA] * nA)
    return {'op': 'noise', 'x': x, 'n': n, 'm': m, 'q2': q2, 'ok': ok, 'am': am}


def check(chk):
    chk.model('MCGauss', 'MCGauss_thorough' if chk.thorough else 'MCGauss')
    n = 2400 if chk.thorough else 320
    chk.validate('TraceGauss', collect(lambda k: run(chk.seed * 100043 + k), range(n)))
