"""G01: advantage estimation; A2C, PPO and TRPO."""
import math
import os
import random
import shutil
import tempfile

import numpy as np
import torch

from mushroom_rl.algorithms.actor_critic import A2C, PPO, TRPO
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.core.serialization import Serializable
from mushroom_rl.policy import TorchPolicy
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.rl_utils.value_functions import compute_advantage, compute_advantage_montecarlo, compute_gae

from guard import guarded
from lib import NAN, collect, enc, encf

EX = [round(1000 * math.exp((k - 65) / 16)) for k in range(1, 131)]
LOG = {}


class Critic(torch.nn.Module):
    """The value of a state is its second component (plus a learned shift that stays at zero)."""

    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.b = torch.nn.Parameter(torch.zeros(1))

    def forward(self, s, **kw):
        LOG['ids'] = [int(round(float(v))) for v in torch.atleast_2d(s)[:, 2]]
        return (s[..., 1:2] + self.b).float()


def loss(y_hat, y, reduction='mean'):
    LOG['vfit'].append((LOG['ids'], y.detach().reshape(-1).tolist(), tuple(y.shape) == tuple(y_hat.shape)))
    return ((y_hat - y) * 0).mean()


class Gauss1(TorchPolicy):
    """Policy of a user: N(theta x, 1)."""

    def __init__(self, th=0., h=0.):
        super().__init__()
        self._th = torch.nn.Parameter(torch.tensor([th], dtype=torch.float32))
        self._h = h
        self._add_save_attr(_th='torch', _h='primitive')

    def distribution_t(self, state):
        return torch.distributions.MultivariateNormal(self._th * state[:, :1].float(), torch.eye(1), validate_args=False)

    def log_prob_t(self, state, action):
        LOG['lp'].append([int(round(float(v))) for v in state[:, 2]])
        return self.distribution_t(state).log_prob(action.float())[:, None]

    def draw_action_t(self, state):
        return self.distribution_t(state).sample().detach()

    def entropy_t(self, state=None):
        return (self._th * self._h).sum()

    def set_weights(self, w):
        self._th.data = torch.as_tensor(w, dtype=torch.float32).clone()

    def get_weights(self):
        return self._th.data.detach().clone()

    def parameters(self):
        return [self._th]


def sample_data(rng, n):
    """A well-formed piece of interaction: absorbing steps end an episode, some episodes are cut."""
    d = {'x': [rng.choice([-2, -1, 1, 2, 0, 1]) for _ in range(n)], 'v': [rng.randint(-6, 6) for _ in range(n)], 'vn': [rng.randint(-6, 6) for _ in range(n)],
         'r': [rng.randint(-5, 5) for _ in range(n)], 'a': [rng.randint(-8, 8) for _ in range(n)], 'ab': [0] * n, 'last': [0] * n}
    for k in range(n):
        if rng.random() < .25:
            d['last'][k] = 1
            d['ab'][k] = int(rng.random() < .5)
    return d


def run_adv(seed):
    rng = random.Random(seed)
    how = ['gae', 'boot', 'mc'][seed % 3]
    c = {'k': 'fn', 'g': rng.randint(0, 4), 'l': rng.randint(0, 4), 'th': 0}
    ev = []
    with guarded(ev, 30):
        for _ in range(rng.randint(2, 5)):
            n = rng.randint(1, 7)
            d = sample_data(rng, n)
            if how == 'mc':            # one piece of trajectory: may be cut only at its end
                d['last'] = [a for a in d['ab']]
            if rng.random() < .3:
                d['last'][-1] = 1
            t = lambda k: torch.tensor([[0., v] for v in d[k]])
            V = lambda s: s[..., 1:2]
            r, ab, la = torch.tensor(d['r'], dtype=torch.float32), torch.tensor(d['ab'], dtype=torch.bool), torch.tensor(d['last'], dtype=torch.bool)
            if how == 'gae':
                q, a = compute_gae(V, t('v'), t('vn'), r, ab, la, c['g'] / 4, c['l'] / 4)
            elif how == 'boot':
                q, a = compute_advantage(V, t('v'), t('vn'), r, ab, c['g'] / 4)
            else:
                q, a = compute_advantage_montecarlo(V, t('v'), t('vn'), r, ab, c['g'] / 4)
            ok = tuple(q.shape) == (n, 1) and tuple(a.shape) == (n, 1)
            ev.append({'op': 'adv', 'how': how, **d, 'adv': [encf(v, 1000) for v in a.ravel().tolist()] if ok else [], 'tgt': [encf(v, 1000) for v in q.ravel().tolist()]})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'advantage %s seed=%d' % (how, seed)}


def run_fit(seed, fixed=None):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    torch.manual_seed(seed)
    k = ['a2c', 'ppo', 'trpo'][seed % 3]
    th = rng.randint(-4, 4) * 2500
    c = {'k': k, 'g': rng.randint(0, 4), 'l': rng.randint(0, 4), 'th': th, 'lr': rng.randint(1, 8), 'ent': rng.choice([0, 0, 1, 2]), 'h': rng.randint(-2, 2), 'ex': EX,
         'eps': rng.choice([100, 200, 300]), 'bsz': rng.randint(2, 8), 'ep': rng.randint(1, 3), 'clip': rng.choice([0, 0, 250, 1000]), 'kl': 0, 'ls': rng.randint(1, 6)}
    if k == 'a2c':
        c['lr'] = rng.randint(1, 3)
    c['kl'] = rng.choice([100, 400, 1000, 4000])
    ev = []
    mi = MDPInfo(Box(-9, 9, (3,)), Box(-9, 9, (1,)), c['g'] / 4, 10, backend='torch')
    with guarded(ev, 60):
        pi = Gauss1(th / 10000, float(c['h']))
        opt = {'class': torch.optim.SGD, 'params': {'lr': c['lr'] / 64}}
        cp = dict(network=Critic, optimizer={'class': torch.optim.SGD, 'params': {'lr': 0.}}, loss=loss, input_shape=(3,), output_shape=(1,))
        LOG.update(lp=[], vfit=[], ids=None)
        if k == 'a2c':
            ag = A2C(mi, pi, opt, cp, ent_coeff=c['ent'] / 8, max_grad_norm=c['clip'] / 1000 if c['clip'] else None, critic_fit_params=dict(n_epochs=1))
        elif k == 'ppo':
            ag = PPO(mi, pi, opt, cp, n_epochs_policy=c['ep'], batch_size=c['bsz'], eps_ppo=c['eps'] / 1000, lam=c['l'] / 4, ent_coeff=c['ent'] / 8,
                     critic_fit_params=dict(n_epochs=1))
        else:
            ag = TRPO(mi, pi, cp, ent_coeff=c['ent'] / 8, max_kl=c['kl'] / 10000, lam=c['l'] / 4, n_epochs_line_search=c['ls'], critic_fit_params=dict(n_epochs=1))
        for _ in range(rng.randint(2, 5)):
            if rng.random() < .15:
                d = tempfile.mkdtemp(prefix='vonp_')
                try:
                    ag.save(os.path.join(d, 'a.msh'), full_save=True)
                    ag = Serializable.load(os.path.join(d, 'a.msh'))
                finally:
                    shutil.rmtree(d, ignore_errors=True)
            n = rng.randint(2, 8)
            d = sample_data(rng, n)
            if k == 'a2c':             # known finding: episodes cut inside the dataset (scenario below)
                d['last'] = list(d['ab'])
            if rng.random() < .5:
                d['last'][-1] = 1
            if fixed:
                n, d = 3, fixed
            ds = Dataset.generate(mi, ag.info, n_steps=n)
            for i in range(n):
                ds.append((torch.tensor([d['x'][i], d['v'][i], i + 1], dtype=torch.float32), torch.tensor([d['a'][i] / 4]), float(d['r'][i]),
                           torch.tensor([0, d['vn'][i], 0], dtype=torch.float32), bool(d['ab'][i]), bool(d['last'][i])), {})
            LOG.update(lp=[], vfit=[])
            e = {'op': 'fit', **d, 'th0': encf(float(ag.policy.get_weights()), 10000)}
            ag.fit(ds)
            e['th1'] = encf(float(ag.policy.get_weights()), 10000)
            vf = LOG['vfit']
            e['vfits'] = len(vf)
            tg = {i: y for ids, ys, ok in vf if ok and len(ids) == len(ys) for i, y in zip(ids, ys)}
            e['tgt'] = [encf(tg[i], 1000) if i in tg else NAN for i in range(1, n + 1)]
            e['bs'] = LOG['lp'] if k == 'ppo' else []
            if any(v == NAN for v in (e['th0'], e['th1'])) or abs(e['th1']) > 60000:
                break
            ev.append(e)
            if abs(e['th1']) > 30000:
                ag.policy.set_weights(torch.tensor([0.]))
                break
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'onpolicy %s seed=%d' % (k, seed)}


def run_cut():
    """A2C on a dataset with an episode truncated at its first step."""
    tr = run_fit(3, {'x': [1, 1, 1], 'v': [1, 2, 3], 'vn': [2, 3, 1], 'r': [1, 2, 3], 'a': [1, 2, 1], 'ab': [0, 0, 1], 'last': [1, 0, 1]})
    tr['key'] = 'a2c-episode-truncated-inside-the-dataset'
    return tr


def check(chk):
    chk.model('MCOnPolicy', 'MCOnPolicy_thorough' if chk.thorough else 'MCOnPolicy')
    n = 5000 if chk.thorough else 700
    chk.validate('TraceOnPolicy', collect(lambda k: run_adv(chk.seed * 100057 + k), range(n)))
    chk.validate('TraceOnPolicy', collect(lambda k: run_fit(chk.seed * 100069 + k), range(n)))
    chk.validate('TraceOnPolicy', [run_cut()], keyfn=lambda t, i, cl: t['key'] if set(cl) <= {'ValueTarget', 'PolicyUpdate'} else None)
