"""O01: black-box policy search.  O02: distributions over parameters."""
import math
import os
import random
import shutil
import tempfile

import numpy as np
import torch

from mushroom_rl.algorithms.policy_search import ConstrainedREPS, PGPE, REPS, RWR
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Core, Environment, MDPInfo, VectorCore, VectorizedEnvironment
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.distributions import Distribution
from mushroom_rl.policy import DeterministicPolicy
from mushroom_rl.rl_utils.optimizers import Optimizer
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Box

from guard import guarded
from lib import NAN, collect, enc, encf

E1 = [round(1e6 * math.exp(1 - k)) for k in range(1, 15)]
E2 = [round(1e6 * math.exp((1 - k) / 100)) for k in range(1, 102)]
G = {}


def iv(x):
    return [enc(v) for v in np.asarray(x).ravel()]


class UserDist(Distribution):
    """A distribution of the user, over integer vectors; all draws are different."""

    def __init__(self, m):
        super().__init__()
        self._m = np.array(m, dtype=float)
        self._add_save_attr(_m='numpy')

    def sample(self, context=None):
        while True:
            th = tuple(int(v) + G['rng'].randint(-50, 50) for v in self._m)
            if th not in G['used']:
                break
        G['used'].add(th)
        G['ev'].append({'op': 'draw', 'th': list(th)})
        return np.array(th, dtype=float)

    def mean(self, context=None):
        return self._m.copy()

    def _move(self):
        self._m = np.array([G['rng'].randint(-2, 2) for _ in self._m], dtype=float)

    def mle(self, theta, weights=None):
        G['calls'].append({'rows': [iv(t) for t in theta], 'w': [encf(v, 1000000) for v in np.asarray(weights).ravel()]})
        self._move()

    def con_wmle(self, theta, weights, eps, kappa):
        G['calls'].append({'rows': [iv(t) for t in theta], 'w': [encf(v, 1000000) for v in np.asarray(weights).ravel()], 'eps': enc(eps, 1000), 'kap': enc(kappa, 1000)})
        self._move()

    def diff_log(self, theta, context=None):
        return np.asarray(theta) - self._m

    def get_parameters(self):
        return self._m.copy()

    def set_parameters(self, rho):
        self._m = np.array(rho, dtype=float)

    @property
    def parameters_size(self):
        return len(self._m)


class UserOptimizer(Optimizer):
    def __init__(self):
        super().__init__(lr=1.)

    def __call__(self, params, *grads):
        G['calls'].append({'grad': [encf(v, 1000) for v in np.asarray(grads[0]).ravel()]})
        return np.array([G['rng'].randint(-2, 2) for _ in params], dtype=float)


class Counting(DeterministicPolicy):
    """A policy of the user with a state: the number of actions drawn in this episode."""

    def __init__(self, mu):
        super().__init__(mu, policy_state_shape=(1,))

    def reset(self):
        return np.zeros(1)

    def draw_action(self, state, policy_state=None):
        return super().draw_action(state)[0], policy_state + 1


def info(D, H, g):
    return MDPInfo(Box(-9, 9, (1,)), Box(-99, 99, (D,)), g / 2, H)


class OneEnv(Environment):
    def __init__(self, D, H, g):
        super().__init__(info(D, H, g))
        self.t = 0

    def reset(self, state=None):
        self.t = 0
        return np.array([1.]), {}

    def step(self, action):
        rng = G['rng']
        self.t += 1
        r, ab = rng.randint(-4, 4), rng.random() < .25
        log_step(1, action, r, ab or self.t >= self.info.horizon)
        return np.array([1.]), float(r), ab, {}

    def stop(self):
        pass


class ManyEnv(VectorizedEnvironment):
    def __init__(self, D, H, g, n):
        super().__init__(info(D, H, g), n)
        self.t = np.zeros(n, dtype=int)
        self.n = n

    def reset_all(self, env_mask, state=None):
        self.t[np.asarray(env_mask)] = 0
        return np.ones((self.n, 1)), [{} for _ in range(self.n)]

    def step_all(self, env_mask, action):
        rng = G['rng']
        r, ab = np.zeros(self.n), np.zeros(self.n, dtype=bool)
        for j in range(self.n):
            if env_mask[j]:
                self.t[j] += 1
                r[j], ab[j] = rng.randint(-4, 4), rng.random() < .25
                log_step(j + 1, action[j], r[j], ab[j] or self.t[j] >= self.info.horizon)
        return np.ones((self.n, 1)), r, ab, [{} for _ in range(self.n)]

    def stop(self):
        pass


def log_step(i, a, r, last):
    G['ev'].append({'op': 'step' if G['learn'] else 'estep', 'i': i, 'a': iv(a), 'r': enc(r), 'last': int(last), 'det': G['det']})


def reload(ag):
    d = tempfile.mkdtemp(prefix='vbbo_')
    try:
        ag.save(os.path.join(d, 'a.msh'), full_save=True)
        return Serializable.load(os.path.join(d, 'a.msh'))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hook(ag):
    fit = ag.fit

    def wrapped(dataset):
        G['calls'] = []
        fit(dataset)
        e = {'op': 'fit', 'calls': len(G['calls']), 'rows': [], 'w': [], 'grad': [], 'eps': 0, 'kap': 0}
        e.update(G['calls'][-1] if G['calls'] else {})
        if ag.policy.is_stateful:
            ps, la = dataset.policy_state, dataset.last
            e['ps'] = [[enc(p), int(bool(b))] for p, b in zip(ps, la)] if ps.shape == (len(la), 1) else [[NAN, 0]]
        else:
            e['ps'] = []
        e['m1'] = iv(ag.distribution.mean())
        G['ev'].append(e)
    ag.fit = wrapped
    return ag


def run_bbo(seed):
    rng = random.Random(seed)
    k = ['rwr', 'reps', 'pgpe', 'creps'][seed % 4]
    n = 3
    D, H = rng.randint(1, 2), rng.randint(1, 5)
    c = {'k': k, 'n': n, 'g': rng.randint(0, 2), 'beta': rng.randint(1, 6), 'eps': rng.choice([50, 100, 200, 400]), 'kap': rng.choice([100, 500]),
         'm': [rng.randint(-2, 2) for _ in range(D)], 'e1': E1, 'e2': E2}
    ev = []
    G.update(rng=rng, used=set(), ev=ev, calls=[], learn=True, det=0)
    with guarded(ev, 40):
        env = OneEnv(D, H, c['g'])
        pi = rng.choice([DeterministicPolicy, Counting])(Regressor(LinearApproximator, input_shape=(1,), output_shape=(D,)))
        dist = UserDist(c['m'])
        if k == 'rwr':
            ag = RWR(env.info, dist, pi, rng.choice([float, Parameter])(c['beta'] / 4))
        elif k == 'reps':
            ag = REPS(env.info, dist, pi, c['eps'] / 1000)
        elif k == 'creps':
            ag = ConstrainedREPS(env.info, dist, pi, c['eps'] / 1000, c['kap'] / 1000)
        else:
            ag = PGPE(env.info, dist, pi, UserOptimizer())
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .25:
                ag = reload(ag)
            if rng.random() < .5:
                m = rng.choice([1, 2, 3])
                env = OneEnv(D, H, c['g']) if m == 1 else ManyEnv(D, H, c['g'], m)
            core = (Core if isinstance(env, OneEnv) else VectorCore)(hook(ag), env)
            npf = rng.randint(2, 6)
            ev.append({'op': 'set'})
            G.update(learn=True, det=0)
            core.learn(n_episodes=npf * rng.randint(1, 3), n_episodes_per_fit=npf, quiet=True)
            if rng.random() < .5:
                det = rng.random() < .5
                ag.set_deterministic(det)
                G.update(learn=False, det=int(det))
                ds = core.evaluate(n_episodes=rng.randint(1, 3), quiet=True)
                ag.set_deterministic(False)
            ag.__dict__.pop('fit', None)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'bbo %s seed=%d' % (k, seed)}
