"""G02: policy gradients, classic actor-critics and gradient optimizers."""
import os
import random
import shutil
import tempfile

import numpy as np

from mushroom_rl.algorithms.actor_critic import COPDAC_Q, StochasticAC, StochasticAC_AVG
from mushroom_rl.algorithms.policy_search import GPOMDP, REINFORCE, eNAC
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.policy import GaussianPolicy
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, Optimizer, SGDOptimizer
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Box

from guard import guarded
from lib import collect, enc, encf

LOG = {}


class UserOptimizer(Optimizer):
    """An optimizer of the user: notes the gradient, moves the parameters to the next scripted ones."""

    def __init__(self):
        super().__init__(lr=1.)

    def __call__(self, params, *grads):
        LOG['grads'].append((np.array(params), np.array(grads[0])))
        return np.array(LOG['next'], dtype=float)


class FirstFeature:
    size = 1

    def __init__(self, k):
        self.k = k

    def __call__(self, x):
        return np.atleast_1d(x[0] + self.k).astype(float)


def reload(ag):
    d = tempfile.mkdtemp(prefix='vpg_')
    try:
        ag.save(os.path.join(d, 'a.msh'), full_save=True)
        return Serializable.load(os.path.join(d, 'a.msh'))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def policy(K, w):
    mu = Regressor(LinearApproximator, input_shape=(K,), output_shape=(1,))
    mu.set_weights(np.array(w, dtype=float))
    return GaussianPolicy(mu, np.eye(1)), mu


def dataset(mi, ag, steps):
    ds = Dataset.generate(mi, ag.info, n_steps=max(1, len(steps)))
    for x, a, r, xn, ab, la in steps:
        ds.append((np.array(x, dtype=float), np.array([a], dtype=float), float(r), np.array(xn, dtype=float), bool(ab), bool(la)), {})
    return ds


def run_pg(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    k = ['reinforce', 'gpomdp', 'enac'][seed % 3]
    K = 1 if k == 'enac' else rng.randint(1, 3)
    rw = lambda: [rng.randint(-2, 2) for _ in range(K)]
    c = {'k': k, 'g': rng.randint(0, 2), 'w': rw(), 'cf': rng.choice([0, 0, 1, 3])}
    mi = MDPInfo(Box(-9, 9, (K,)), Box(-99, 99, (1,)), c['g'] / 2, 10)
    ev = []
    with guarded(ev, 40):
        pi, _ = policy(K, c['w'])
        cls = {'reinforce': REINFORCE, 'gpomdp': GPOMDP, 'enac': eNAC}[k]
        ag = cls(mi, pi, UserOptimizer(), **({'critic_features': FirstFeature(c['cf'])} if k == 'enac' and c['cf'] else {}))
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .2:
                ag = reload(ag)
            xs = [-1, 0, 1, 2] if rng.random() < .8 else [1, 1, 1, 0]
            ep = [[([rng.choice(xs) for _ in range(K)], rng.randint(-2, 2), rng.randint(-3, 3)) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(2, 4))]
            if rng.random() < .1:
                ep = [ep[0]] * len(ep)
            tail = k != 'gpomdp' and rng.random() < .3      # a last episode that is not finished
            st = []
            for i, E in enumerate(ep + ([ep[0]] if tail else [])):
                ab = rng.random() < .5
                for j, (x, a, r) in enumerate(E):
                    la = j == len(E) - 1 and i < len(ep)
                    st.append((x, a, r, x, ab and la, la))
            ds = dataset(mi, ag, st)
            LOG.update(grads=[], next=rw())
            e = {'op': 'pg', 'x': [[z[0] for z in E] for E in ep], 'a': [[z[1] for z in E] for E in ep], 'r': [[z[2] for z in E] for E in ep],
                 'w0': [enc(v) for v in ag.policy.get_weights()]}
            ag.fit(ds)
            e['n'] = len(LOG['grads'])
            e['grad'] = [encf(v, 1000) for v in LOG['grads'][-1][1].ravel()] if LOG['grads'] else []
            e['w1'] = [enc(v) for v in ag.policy.get_weights()]
            ev.append(e)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'polgrad %s seed=%d' % (k, seed)}


def run_ac(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    k = ['sac', 'sacavg', 'copdac'][seed % 3]
    K = rng.randint(1, 2)
    c = {'k': k, 'g': rng.randint(0, 2), 'l': rng.randint(0, 4), 'w': [10000 * rng.randint(-1, 1) for _ in range(K)],
         'at': rng.randint(1, 8), 'av': rng.randint(1, 12), 'ar': rng.randint(1, 8), 'ao': rng.randint(1, 8)}
    mi = MDPInfo(Box(-9, 9, (K,)), Box(-99, 99, (1,)), c['g'] / 2, 10)
    ev = []
    with guarded(ev, 40):
        pi, mu = policy(K, [v / 10000 for v in c['w']])
        f = lambda n: rng.choice([float, Parameter])(c[n] / 32)
        if k == 'sac':
            ag = StochasticAC(mi, pi, f('at'), f('av'), lambda_par=c['l'] / 4)
        elif k == 'sacavg':
            ag = StochasticAC_AVG(mi, pi, f('at'), f('av'), f('ar'), lambda_par=c['l'] / 4)
        else:
            ag = COPDAC_Q(mi, pi, mu, f('at'), f('ao'), f('av'))
        V = lambda: [rng.choice([-1, 0, 1, 1]) for _ in range(K)]
        x = V()
        ag.episode_start(np.array(x, dtype=float), {})
        ev.append({'op': 'start'})
        done = False
        for _ in range(rng.randint(2, 8)):
            if done:
                x = V()
                ag.episode_start(np.array(x, dtype=float), {})
                ev.append({'op': 'start'})
            if rng.random() < .15:
                ag = reload(ag)
            st, zs = [], []
            for _ in range(rng.choice([1, 1, 2, 3])):
                xn = V()
                done = rng.random() < .2
                ab = int(done and rng.random() < .6)
                a, r = rng.randint(-2, 2), rng.randint(-2, 2)
                st.append((x, a, r, xn, ab, done))
                zs.append({'x': x, 'a': a, 'r': r, 'xn': xn, 'ab': ab})
                x = xn
                if done:
                    break
            ag.fit(dataset(mi, ag, st))
            w1 = [encf(v, 10000) for v in ag.policy.get_weights()]
            if max(abs(v) for v in w1) > 10 ** 6:
                break
            ev.append({'op': 'ac', 'zs': zs, 'w1': w1})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'classic %s seed=%d' % (k, seed)}


def run_opt(seed):
    rng = random.Random(seed)
    k = ['sgd', 'adam', 'adaptive'][seed % 3]
    K = rng.randint(1, 3)
    c = {'k': k, 'w': [0] * K, 'lr': rng.randint(1, 24), 'eps': rng.randint(1, 96), 'max': int(rng.random() < .5), 'g': 2}
    ev = []
    with guarded(ev, 30):
        m = bool(c['max'])
        if k == 'sgd':
            o = SGDOptimizer(rng.choice([float, Parameter])(c['lr'] / 16), maximize=m)
        elif k == 'adam':
            o = AdamOptimizer(c['lr'] / 16, beta1=.5, beta2=.75, eps=1e-12, maximize=m)
        else:
            o = AdaptiveOptimizer(c['eps'] / 64, maximize=m)
        p = np.array([float(rng.randint(-5, 5)) for _ in range(K)])
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .2:
                o = reload(o)
            g = np.array([float(rng.randint(-6, 6)) for _ in range(K)])
            ng = g
            args = [g]
            if k == 'adaptive' and rng.random() < .5:
                ng = np.array([g[i] * rng.randint(1, 3) for i in range(K)])
                args = [g, ng]
            g0, ng0, p0 = g.copy(), ng.copy(), p.copy()
            q = o(p, *args)
            ev.append({'op': 'opt', 'gr': [enc(v) for v in g0], 'ng': [enc(v) for v in ng0], 'd': [encf(v, 10000) for v in (q - p0)],
                       'same': int(np.array_equal(g, g0) and np.array_equal(ng, ng0) and np.array_equal(p, p0))})
            p = q
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'optimizer %s seed=%d' % (k, seed)}


def check(chk):
    chk.model('MCPolGrad', 'MCPolGrad_thorough' if chk.thorough else 'MCPolGrad')
    n = 5000 if chk.thorough else 600
    for j, f in enumerate((run_pg, run_ac, run_opt)):
        chk.validate('TracePolGrad', collect(lambda k: f(chk.seed * 100103 + 7 * j + k), range(n)))
