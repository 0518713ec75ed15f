"""A01: what the DQN family fits, on which samples, towards which targets, from which frozen models."""
import os
import random
import shutil
import tempfile

import numpy as np
import torch

from mushroom_rl.algorithms.value import (AveragedDQN, CategoricalDQN, DoubleDQN, DQN, MaxminDQN, QuantileDQN, Rainbow)
from mushroom_rl.core import Agent, Dataset, MDPInfo, Serializable
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete

from guard import guarded
from lib import NAN, collect, enc, encf

V = 1024
SCRIPT = {'next': None, 'log': None}


class TabQ(Serializable):
    """A table approximator as a user could write it; what it becomes after a fit is scripted."""

    def __init__(self, input_shape, output_shape, nS, rng_seed, kind='value', nAt=1, **kw):
        self.nS, self.nA, self.kind, self.nAt = nS, output_shape[0], kind, nAt
        self.table = np.array(rand_table(random.Random(random.random() if rng_seed is None else rng_seed), self), dtype=float)
        self._add_save_attr(nS='primitive', nA='primitive', kind='primitive', nAt='primitive', table='numpy')

    def _idx(self, state):
        return np.round(np.asarray(state)[..., 0]).astype(int) % self.nS

    def predict(self, state, action=None, get_distribution=False, get_quantiles=False, **kw):
        t = self.table[self._idx(state)]
        if self.kind != 'value' and not (get_distribution or get_quantiles):
            t = t.mean(-1) if self.kind == 'quant' else t @ SCRIPT['atoms']
        if action is not None:
            a = np.asarray(action).ravel().astype(int)
            t = t[np.arange(len(t)), a]
        return t.copy()

    def fit(self, state, action, q, weights=None, **kw):
        SCRIPT['log'].append({'obj': self, 'ids': [enc(x) for x in np.asarray(state)[:, 0]],
                              'acts': [int(a) + 1 for a in np.asarray(action).ravel()],
                              'tg': [[encf(v, V) for v in np.atleast_1d(x)] for x in np.asarray(q)],
                              'iw': [] if weights is None else [encf(x, V) for x in np.asarray(weights).ravel()]})
        self.table[:] = SCRIPT['next']

    def get_weights(self):
        return self.table.ravel().copy()

    def set_weights(self, w):
        self.table = np.array(w, dtype=float).reshape(self.table.shape)

    @property
    def weights_size(self):
        return self.table.size


class Holder(Serializable):
    """A regressor holding one TabQ."""

    def __init__(self, model):
        self.m = model
        self._add_save_attr(m='mushroom')

    def __call__(self, *z, **k):
        return self.predict(*z, **k)

    def predict(self, *z, **k):
        one = np.asarray(z[0]).ndim == 1
        if one:
            z = [np.expand_dims(x, 0) for x in z]
        r = self.m.predict(*z, **k)
        return r[0] if one else r

    def fit(self, *z, **k):
        self.m.fit(*z, **k)

    def get_weights(self):
        return self.m.get_weights()

    def set_weights(self, w):
        self.m.set_weights(w)

    def __len__(self):
        return 1

    def __getitem__(self, k):
        return self.m


def rand_table(rng, m):
    def leaf():
        if m.kind == 'value':
            return rng.randint(-12, 12) / 4
        if m.kind == 'quant':
            return [rng.randint(-12, 12) / 4 for _ in range(m.nAt)]
        p = [0] * m.nAt
        for _ in range(8):
            p[rng.randrange(m.nAt)] += 1 / 8
        return p
    return [[leaf() for _ in range(m.nA)] for _ in range(m.nS)]


def enct(m):
    sc = 8 if m.kind == 'dist' else V
    return [[([enc(v, sc) for v in x] if m.kind != 'value' else enc(x, sc)) for x in row] for row in m.table]


class FeatNet(torch.nn.Module):
    def __init__(self, input_shape, output_shape, n_features=4, **kw):
        super().__init__()
        self.l = torch.nn.Linear(input_shape[-1], n_features)

    def forward(self, s, a=None):
        return self.l(s.float())


class Recorder:
    """Records the calls of the public interface of prioritized memories while an agent is fitted."""

    def __init__(self, log):
        self.log = log

    def __enter__(self):
        self.old = {n: getattr(PrioritizedReplayMemory, n) for n in ('add', 'get', 'update')}
        old, log = self.old, self.log

        def add(mem, dataset, p, *a, **k):
            log.append(('add', int(len(p) == len(dataset) and np.allclose(np.asarray(p), mem.max_priority))))
            return old['add'](mem, dataset, p, *a, **k)

        def get(mem, n):
            r = old['get'](mem, n)
            log.append(('get', [enc(x) for x in r[-2]], [encf(x, V) for x in r[-1]]))
            return r

        def update(mem, error, idx):
            log.append(('update', [encf(x, V) for x in np.asarray(error).ravel()], [enc(x) for x in np.asarray(idx).ravel()]))
            return old['update'](mem, error, idx)
        for n, f in (('add', add), ('get', get), ('update', update)):
            setattr(PrioritizedReplayMemory, n, f)

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(PrioritizedReplayMemory, n, f)


ALGS = ['dqn', 'double', 'maxmin', 'averaged', 'cat', 'quant', 'rainbow']


def run(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    torch.manual_seed(seed)
    alg = ALGS[seed % len(ALGS)]
    dist = alg in ('cat', 'quant', 'rainbow')
    prio = 1 if alg == 'rainbow' else (0 if dist else int(rng.random() < 0.4))
    nS, nA = rng.randint(2, 4), rng.randint(2, 3)
    c = {'alg': alg, 'nS': nS, 'nA': nA, 'nM': rng.randint(2, 3) if alg == 'maxmin' else 1, 'nT': rng.randint(2, 3),
         'g': rng.choice([4, 6, 7, 8]), 'n': rng.randint(1, 2) if alg == 'rainbow' else 1, 'freq': rng.randint(1, 4),
         'init': rng.choice([1, 3, 5]), 'cap': rng.choice([6, 9, 14]), 'clip': rng.randint(0, 1), 'prio': prio,
         'bs': rng.randint(1, 4), 'vmin': rng.choice([-4, -2, 0]), 'd': rng.choice([1, 2]), 'nAt': {'quant': 4}.get(alg, rng.randint(3, 5))}
    kind = {'quant': 'quant'}.get(alg, 'dist' if dist else 'value')
    SCRIPT['atoms'] = np.array([c['vmin'] + c['d'] * k for k in range(c['nAt'])], dtype=float)
    ev = []
    info = MDPInfo(Box(0, 100000, shape=(1,)), Discrete(nA), c['g'] / 8, 100)
    with guarded(ev, 60):
        pi = EpsGreedy(0.)
        ap = dict(input_shape=(1,), output_shape=(nA,), n_actions=nA)
        kw = dict(batch_size=c['bs'], target_update_frequency=c['freq'], initial_replay_size=c['init'], max_replay_size=c['cap'],
                  clip_reward=bool(c['clip']))
        if dist:
            ap.update(network=FeatNet, n_features=4, optimizer={'class': torch.optim.Adam, 'params': {'lr': 1e-3}})
            vmax = c['vmin'] + c['d'] * (c['nAt'] - 1)
            if alg == 'cat':
                agent = CategoricalDQN(info, pi, approximator_params=ap, n_atoms=c['nAt'], v_min=c['vmin'], v_max=vmax, **kw)
            elif alg == 'quant':
                agent = QuantileDQN(info, pi, approximator_params=ap, n_quantiles=c['nAt'], **kw)
            else:
                agent = Rainbow(info, pi, approximator_params=ap, n_atoms=c['nAt'], v_min=c['vmin'], v_max=vmax,
                                n_steps_return=c['n'], alpha_coeff=.6, beta=Parameter(.5), **kw)
            agent.approximator = Holder(TabQ((1,), (nA,), nS, seed, kind, c['nAt']))
            agent.target_approximator = Holder(TabQ((1,), (nA,), nS, seed + 1, kind, c['nAt']))
            agent.target_approximator.set_weights(agent.approximator.get_weights())
            agent.policy.set_q(agent.approximator)
        else:
            ap.update(nS=nS, rng_seed=None)
            random.seed(seed)
            if prio:
                kw['replay_memory'] = {'class': PrioritizedReplayMemory, 'params': dict(alpha=.6, beta=Parameter(.5))}
            elif rng.random() < 0.3:
                kw['replay_memory'] = {'class': ReplayMemory, 'params': {}}
            if rng.random() < 0.3:
                kw['fit_params'] = dict(user_option=3)
            cls = {'dqn': DQN, 'double': DoubleDQN, 'maxmin': MaxminDQN, 'averaged': AveragedDQN}[alg]
            if alg == 'maxmin':
                kw['n_approximators'] = c['nM']
            if alg == 'averaged':
                kw['n_approximators'] = c['nT']
            agent = cls(info, pi, TabQ, approximator_params=ap, **kw)
        models = [agent.approximator[k] for k in range(c['nM'])] if alg == 'maxmin' else [agent.approximator[0] if dist else agent.approximator.model]
        ev.append({'op': 'init', 'w': [enct(m) for m in models]})
        nid = 1
        for _ in range(rng.randint(6, 30)):
            if rng.random() < 0.06 and not dist:
                d = tempfile.mkdtemp(prefix='vdqn_')
                try:
                    p = os.path.join(d, 'a.msh')
                    agent.save(p, full_save=True)
                    agent = Agent.load(p)
                finally:
                    shutil.rmtree(d, ignore_errors=True)
                models = [agent.approximator[k] for k in range(c['nM'])] if alg == 'maxmin' else [agent.approximator.model]
                ev.append({'op': 'same', 'w': [enct(m) for m in models]})
            k = rng.choice([1, 1, 2, 4])
            ds = Dataset.generate(info, agent.info, n_steps=k)
            tr = []
            for j in range(k):
                ab = int(rng.random() < 0.25)
                t = {'id': nid, 'a': rng.randrange(nA) + 1, 'r': rng.randint(-6, 6), 's2': rng.randrange(1000), 'ab': ab,
                     'last': int(ab or j == k - 1 or rng.random() < 0.2)}
                ds.append((np.array([float(nid)]), np.array([t['a'] - 1]), t['r'] / 2, np.array([float(t['s2'])]), bool(ab), bool(t['last'])), {})
                tr.append(t)
                nid += 1
            SCRIPT['next'] = np.array(rand_table(rng, models[0]), dtype=float)
            SCRIPT['log'] = []
            log = []
            with Recorder(log):
                agent.fit(ds)
            fits = []
            for f in SCRIPT['log']:
                f = dict(f)
                obj = f.pop('obj')
                ms = [i + 1 for i, m in enumerate(models) if m is obj]
                f['m'] = ms[0] if ms else 0
                ups, gets = [x for x in log if x[0] == 'update'], [x for x in log if x[0] == 'get']
                f['nup'] = len(ups)
                f['err'], f['uidx'] = (ups[0][1], ups[0][2]) if ups else ([], [])
                f['gidx'], f['giw'] = (gets[0][1], gets[0][2]) if gets else ([], [])
                fits.append(f)
            e = {'op': 'fit', 'tr': tr, 'fits': fits, 'w': [enct(m) for m in models], 'addp': int([x[1] for x in log if x[0] == 'add'] == [1])}
            new = models[0].__class__.__new__(models[0].__class__)
            new.kind, new.table = kind, SCRIPT['next']
            e['new'] = enct(new)
            ev.append(e)
            if rng.random() < 0.4:
                z = rng.randrange(1000)
                a, _ = agent.draw_action(np.array([float(z)]))
                ev.append({'op': 'act', 's': z, 'a': int(np.asarray(a).ravel()[0]) + 1})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'dqn %s seed=%d' % (alg, seed)}


def check(chk):
    chk.model('MCDQN', 'MCDQN_thorough' if chk.thorough else 'MCDQN')
    n = 5000 if chk.thorough else 900
    chk.validate('TraceDQN', collect(lambda k: run(chk.seed * 100009 + k), range(n)))
