"""P04: movement primitives (ProMP, DMP)."""
import os
import random
import shutil
import tempfile

import numpy as np

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Agent, Core, Environment, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.policy import DMP, ProMP
from mushroom_rl.rl_utils.spaces import Box

from guard import guarded
from lib import collect

U = 8192


class Env(Environment):
    def __init__(self, n, ends, hz):
        self.n, self.ends, self.hz, self.k = n, ends, hz, 0
        super().__init__(MDPInfo(Box(-1, 1, shape=(1,)), Box(-9, 9, shape=(n,)), .9, hz))

    def reset(self, state=None):
        self.t = 0
        return np.zeros(1), {}

    def step(self, a):
        self.t += 1
        e = self.t >= self.ends[self.k % len(self.ends)]
        self.k += e
        return np.zeros(1), 0., bool(e), {}


class Agt(Agent):
    def fit(self, dataset):
        pass


def num(x, k):
    """Scaled integers; anything that is not one shows as a wrong number."""
    out = []
    for v in np.asarray(x, dtype=float).reshape(-1):
        y = float(np.clip(v * k, -2e9, 2e9))
        out.append(int(round(y)) if abs(y - round(y)) < 1e-5 else 1999999999)
    return out


def promp(w, d, prec, per):
    phi = Features(basis_list=PolynomialBasis.generate(2, 1))
    mu = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=(len(w),))
    mu.set_weights(np.array(w, dtype=float).reshape(-1))
    return ProMP(mu, phi, d, sigma=None if not prec else np.diag([1. / p for p in prec]), periodic=per)


def run_promp(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    n, d, per = rng.randint(1, 3), rng.choice([2, 3, 4, 5, 8]), rng.random() < .4
    W = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(n)]
    noisy = rng.random() < .4
    prec = [rng.choice([1, 2, 4]) for _ in range(n)] if noisy else []
    c = {'mp': 'promp', 'n': n, 'd': d, 'per': int(per), 'w': W, 'prec': prec, 'g': []}
    ev = []
    K = d * d
    tmp = tempfile.mkdtemp(prefix='verif-mp-')
    try:
        with guarded(ev, 60):
            p = promp(W, d, prec, per)
            h = p.reset()
            ev.append({'op': 'reset', 'h': num(h, 1)})
            s = np.zeros(1)
            for _ in range(rng.randint(3, 20)):
                q = rng.random()
                if q < .1:
                    h = p.reset()
                    ev.append({'op': 'reset', 'h': num(h, 1)})
                elif q < .2:
                    W = [[rng.randint(-4, 4) for _ in range(3)] for _ in range(n)]
                    p.set_weights(np.array(W, dtype=float).reshape(-1))
                    g = np.array(p.get_weights()).reshape(n, 3)
                    ev.append({'op': 'weights', 'w': W, 'got': [num(r, 1) for r in g], 'n': 3 * n, 'size': int(p.weights_size)})
                elif q < .3:
                    a = [rng.randint(-3, 3) for _ in range(n)]
                    if rng.random() < .5 and not noisy:
                        x = p.draw_action(s, h.copy())[0]
                        a = num(x, K)
                        pr = p(s, x, h)
                    else:
                        a = [x * K for x in a]
                        pr = p(s, np.array(a) / K, h)
                    if noisy:
                        cst = n * np.log(2 * np.pi) - np.sum(np.log(prec))
                        ql = -2 * np.log(max(float(pr), 1e-300)) - cst
                        if float(pr) < 1e-290:
                            ev.append({'op': 'tiny', 'h': num(h, 1)[0], 'a': a, 'p': int(pr < 0)})
                        elif ql * K * K < 1e9 and ql < 600:
                            ev.append({'op': 'pdf', 'h': num(h, 1)[0], 'a': a, 'q': int(round(ql * K * K))})
                    else:
                        ev.append({'op': 'pdf', 'h': num(h, 1)[0], 'a': a, 'p': num([pr], 1)[0]})
                elif q < .35:
                    f = os.path.join(tmp, 'p.msh')
                    p.save(f)
                    r = ProMP.load(f)
                    st = np.random.get_state()
                    x = p.draw_action(s, h.copy())
                    np.random.set_state(st)
                    y = r.draw_action(s, h.copy())
                    ev.append({'op': 'loaded', 'got': str([y[0].tolist(), y[1].tolist(), r.weights_size]), 'want': str([x[0].tolist(), x[1].tolist(), 3 * n])})
                    if rng.random() < .5:
                        p = r
                elif noisy:
                    m = 3000 if rng.random() < .1 else 0
                    if m:
                        xs = np.array([p.draw_action(s, h.copy())[0] for _ in range(m)])
                        sd = np.sqrt(1. / np.array(prec))
                        ev.append({'op': 'law', 'h': num(h, 1)[0], 'm': [int(round(v * K)) for v in xs.mean(0)], 'tm': [int(K * 6 * v / np.sqrt(m)) + 1 for v in sd],
                                   'v': [int(1000 * v) for v in xs.var(0) * np.array(prec)], 'lo': 800, 'hi': 1220})
                    h = p.draw_action(s, h)[1]
                else:
                    h0 = h.copy()
                    a, hn = p.draw_action(s, h)
                    ev.append({'op': 'draw', 'h': num(h0, 1)[0], 'a': num(a, K), 'hn': num(hn, 1)[0], 'same': int(np.array_equal(h, h0))})
                    h = hn
            if not noisy:
                core = Core(Agt(MDPInfo(Box(-1, 1, shape=(1,)), Box(-9, 9, shape=(n,)), .9, 20), p), Env(n, [rng.randint(1, 12) for _ in range(5)], rng.randint(3, 10)))
                ds = core.evaluate(n_episodes=rng.randint(1, 5), quiet=True) if rng.random() < .5 else core.evaluate(n_steps=rng.randint(1, 25), quiet=True)
                ps, pn = ds.parse_policy_state()
                rows = [{'h': num(x, 1)[0], 'hn': num(y, 1)[0], 'a': num(a, K), 'last': int(l)} for x, y, a, l in zip(ps, pn, ds.action, ds.last)]
                ev.append({'op': 'rows', 'rows': rows})
    finally:
        shutil.rmtree(tmp)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'promp seed=%d' % seed}


def run_dmp(seed):
    rng = random.Random(seed)
    n = rng.randint(1, 2)
    W = [[rng.randint(-2, 2) for _ in range(n + 1)] for _ in range(n)]
    g = [rng.choice([-2, -1, 1, 2]) for _ in range(n)]
    gains = {k: rng.choice([4, 8, 12, 16]) for k in ('av', 'bv', 'az', 'bz')}
    dti, tau = rng.choice([4, 8]), rng.choice([1, 2])
    c = dict({'mp': 'dmp', 'n': n, 'w': W, 'g': g, 'dti': dti, 'tau': tau, 'd': 1, 'per': 0, 'prec': []}, **gains)
    ev = []
    tmp = tempfile.mkdtemp(prefix='verif-mp-')
    E = lambda x: [int(round(float(np.clip(v, -1e5, 1e5)) * U)) for v in np.asarray(x).reshape(-1)]
    try:
        with guarded(ev, 60):
            phi = Features(basis_list=PolynomialBasis.generate(1, n))
            probe = phi(np.arange(2., 2. + n))
            perm = [int(np.argmin(np.abs(probe - v))) for v in [1.] + list(np.arange(2., 2. + n))]
            mu = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=(n,))

            def flat(w):
                m = np.zeros((n, n + 1))
                for j, k in enumerate(perm):
                    m[:, k] = [r[j] for r in w]
                return m.reshape(-1)
            p = DMP(mu, phi, np.array(g, dtype=float), 1. / dti, float(tau), gains['av'] / 8, gains['bv'] / 8, gains['az'] / 8, gains['bz'] / 8)
            p.set_weights(flat(W))
            if rng.random() < .5:
                p.reset()
                ev.append({'op': 'reset', 'h': []})
            kept, k, last = [], 0, np.zeros(n)
            for _ in range(rng.randint(3, 14)):
                q = rng.random()
                if q < .15 or k >= 5:
                    p.reset()
                    k, last = 0, np.zeros(n)
                    ev.append({'op': 'reset', 'h': []})
                    if rng.random() < .3:
                        g = [rng.choice([-2, -1, 1, 2]) for _ in range(n)]
                        p.set_goal(np.array(g, dtype=float))
                        ev.append({'op': 'goal', 'g': g, 'got': num(p.get_goal(None), 1)})
                    if rng.random() < .3:
                        W = [[rng.randint(-2, 2) for _ in range(n + 1)] for _ in range(n)]
                        p.set_weights(flat(W))
                        ev.append({'op': 'weights', 'w': W, 'got': W if np.array_equal(p.get_weights(), flat(W)) else [], 'n': n * (n + 1), 'size': int(p.weights_size)})
                elif q < .25:
                    f = os.path.join(tmp, 'p.msh')
                    p.save(f)
                    p = DMP.load(f)
                elif q < .35 and k > 0:
                    x = last if rng.random() < .5 else last + 1
                    ev.append({'op': 'prob', 'p': num([p(None, x, None)], 1)[0], 'want': int(x is last)})
                else:
                    a, h = p.draw_action(np.zeros(1), None)
                    last = a.copy()
                    k += 1
                    ev.append({'op': 'draw', 'a': E(a)})
                    kept.append((a, E(a)))
            ev.append({'op': 'kept', 'x': [E(x) for x, _ in kept], 'y': [y for _, y in kept]})
    finally:
        shutil.rmtree(tmp)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'dmp seed=%d' % seed}


def run(seed):
    return (run_dmp if seed % 3 == 0 else run_promp)(seed)


def check(chk):
    chk.model('MCPrimitive', 'MCPrimitive_thorough' if chk.thorough else 'MCPrimitive')
    n = 15000 if chk.thorough else 1500
    chk.validate('TracePrimitive', collect(lambda k: run(chk.seed * 100003 + k), range(n)))
