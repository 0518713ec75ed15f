"""G03: recurrent PPO (truncated back-propagation through time) and recurrent policies."""
import os
import random
import shutil
import tempfile

import numpy as np
import torch

from mushroom_rl.algorithms.actor_critic import PPO_BPTT
from mushroom_rl.core import Core, Environment, MDPInfo
from mushroom_rl.policy import RecurrentGaussianTorchPolicy
from mushroom_rl.rl_utils.spaces import Box

from guard import guarded
from lib import collect

U = 4096


class Log:
    values, critic, policy, pol = [], [], [], None


def rows(state, h, lengths):
    out = []
    for s, x, l in zip(state.detach(), h.detach().reshape(len(state), -1), lengths):
        out.append({'q': [int(round(float(v))) for v in s[:int(l), 0]], 'h': int(round(float(x[0])))})
    return out


class Critic(torch.nn.Module):
    flat = True

    def __init__(self, input_shape, output_shape, **k):
        super().__init__()
        self.p = torch.nn.Parameter(torch.zeros(1))

    def forward(self, state, policy_state, lengths):
        r = rows(state, policy_state, lengths)
        if torch.is_grad_enabled():
            Log.critic.extend({'w': x} for x in r)
        else:
            Log.values.extend(r)
        v = torch.tensor([float((sum((k + 1) * s for k, s in enumerate(x['q'])) + x['h']) % 15 - 7) for x in r])
        v = v + self.p * 0
        return v if Critic.flat else v[:, None]


class Loss(torch.nn.Module):
    def forward(self, y, t):
        for row, z in zip(Log.critic[-len(t):], t.detach().reshape(-1)):
            row['y'] = int(round(float(z) * U)) if abs(float(z)) < 1e5 else 1999999999
        return torch.mean((y - t) ** 2)


class Actor(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **k):
        super().__init__()
        self.p = torch.nn.Parameter(torch.zeros(1))

    def forward(self, state, policy_state, lengths):
        r = rows(state, policy_state, lengths)
        mu = torch.tensor([float(sum(x['q']) % 5) for x in r])[:, None] + self.p
        if torch.is_grad_enabled():
            sig = float(torch.exp(torch.clamp(Log.pol.get_weights()[-1], -20, 2)))
            Log.batch += 1

            def hook(g, r=r, m=mu.detach(), sig=sig, b=Log.batch, off=float(self.p.detach()[0])):
                for x, y, z in zip(r, g, m):
                    Log.policy.append({'w': x, 'g': float(y[0]) * len(r), 'mu': float(z[0]), 'mu0': float(z[0]) - off + Log.off, 'sig': sig, 'b': b})
            mu.register_hook(hook)
        h = torch.tensor([[float((3 * x['h'] + x['q'][-1]) % 11)] for x in r])
        return mu, h


class Sgd(torch.optim.SGD):
    """Gradient steps within a box, so that learning cannot diverge."""
    def step(self, *a, **k):
        super().step(*a, **k)
        with torch.no_grad():
            for g in self.param_groups:
                for p in g['params']:
                    p.clamp_(-1, 1)


class Env(Environment):
    def __init__(self, rng, hz):
        self.rng, self.k = rng, 0
        super().__init__(MDPInfo(Box(0, 1000, shape=(1,)), Box(-9, 9, shape=(1,)), Env.gamma, hz))

    def obs(self):
        self.k += 1
        return np.array([float(self.k)])

    def reset(self, state=None):
        self.t = 0
        return self.obs(), {}

    def step(self, a):
        self.t += 1   # no episode of a single step: the deviation of one advantage is undefined
        return self.obs(), float(self.rng.randint(-3, 3)), self.t > 1 and self.rng.random() < .15, {}


class Rec(PPO_BPTT):
    def fit(self, dataset):
        Log.values, Log.critic, Log.policy, Log.batch = [], [], [], 0
        sig0, Log.off = float(torch.exp(torch.clamp(self.policy.get_weights()[-1], -20, 2))), float(self.policy.get_weights()[0])
        st, ac, rw, ns, ab, la = [np.array(x) for x in dataset.parse()]
        ps, pn = [np.array(x).reshape(len(st), -1) for x in dataset.parse_policy_state()]
        n = lambda x: int(round(float(x)))
        d = [{'s': n(st[i, 0]), 'h': n(ps[i, 0]), 'r': n(rw[i]), 'ns': n(ns[i, 0]), 'nh': n(pn[i, 0]), 'ab': n(ab[i]), 'last': n(la[i])} for i in range(len(st))]
        super().fit(dataset)
        Log.gs = float(list(self.policy.parameters())[-1].grad[0])
        at = {x['s']: i for i, x in enumerate(d)}
        cr = [dict(x, i=at.get(x['w']['q'][-1], -1) + 1, y=x.get('y', 1999999999)) for x in Log.critic]
        po = []
        for x in Log.policy:
            i = at.get(x['w']['q'][-1], -1)
            row = {'w': x['w'], 'i': i + 1, 'b': x['b'], 'ok': 0, 'g': 0, 'ratio': 1000, 'z': 0}
            if i >= 0:
                old, new = float(ac[i, 0]) - x['mu0'], float(ac[i, 0]) - x['mu']
                ratio = np.exp(old ** 2 / (2 * sig0 ** 2) - new ** 2 / (2 * x['sig'] ** 2)) * sig0 / x['sig']
                # without clipping: gradient of the mean = - advantage * ratio * (action - mean) / variance
                v = -x['g'] * x['sig'] ** 2 / new / ratio if abs(new) > 1e-2 and .01 < ratio < 100 else 0
                row.update(ok=int(abs(new) > 1e-2 and .01 < ratio < 100), g=int(round(float(np.clip(v, -1e5, 1e5)) * 1000)),
                           ratio=int(round(min(ratio, 100) * 1000)), z=int(round(min(1e3, (new / x['sig']) ** 2) * 1000)))
            po.append(row)
        self.out.append({'op': 'fit', 'd': d, 'values': Log.values, 'critic': cr, 'policy': po, 'gs': int(round(float(np.clip(Log.gs, -1e5, 1e5)) * 1000)), 'last': Log.batch})


def run(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    torch.manual_seed(seed)
    g, lam, L = rng.choice([1, 2]), rng.choice([0, 1, 2]), rng.randint(1, 5)
    hz = rng.randint(2, 6)
    cep, pep = rng.randint(1, 2), rng.randint(1, 3)
    c = {'g': g, 'lam': lam, 'l': L, 'cep': cep, 'pep': pep, 'eps': rng.choice([200, 50]), 'ent': rng.choice([0, 100, 250])}
    Env.gamma = g / 2
    Critic.flat = rng.random() < .5
    ev = []
    tmp = tempfile.mkdtemp(prefix='verif-bptt-')
    try:
        with guarded(ev, 60):
            std = rng.choice([1., 2., .5])
            env = Env(rng, hz)
            pol = RecurrentGaussianTorchPolicy(network=Actor, policy_state_shape=(1,), input_shape=(1,), output_shape=(1,), std_0=std)
            Log.pol = pol
            opt = {'class': torch.optim.SGD, 'params': {'lr': 0.}}
            aopt = {'class': Sgd, 'params': {'lr': rng.choice([0., .02, .1])}}
            cb = rng.choice([0, 3, 50])
            ag = Rec(env.info, pol, aopt, dict(network=Critic, optimizer=opt, loss=Loss(), batch_size=cb, input_shape=(1,), output_shape=(1,)),
                     n_epochs_policy=pep, batch_size=rng.choice([2, 4, 64]), eps_ppo=c['eps'] / 1000, lam=lam / 2, dim_env_state=1, ent_coeff=c['ent'] / 1000,
                     critic_fit_params=dict(n_epochs=cep), truncation_length=L)
            ag.out = []
            core = Core(ag, env)
            if rng.random() < .5:
                k = rng.randint(3, 9)
                core.learn(n_steps=k * rng.randint(1, 3), n_steps_per_fit=k, quiet=True)
            else:
                k = rng.randint(1, 3)
                core.learn(n_episodes=k * rng.randint(1, 3), n_episodes_per_fit=k, quiet=True)
            ev.extend(ag.out)
            if rng.random() < .3:
                f = os.path.join(tmp, 'p.msh')
                pol.save(f)
                q = RecurrentGaussianTorchPolicy.load(f)
                h = torch.tensor([3.])
                torch.manual_seed(1)
                x = pol.draw_action(np.array([2.]), h)
                torch.manual_seed(1)
                y = q.draw_action(np.array([2.]), h)
                ev.append({'op': 'loaded', 'got': str([y[0].tolist(), y[1].tolist(), q.reset().tolist()]), 'want': str([x[0].tolist(), x[1].tolist(), [0.]])})
            if rng.random() < .3:
                f = os.path.join(tmp, 'a.msh')
                ag.save(f, full_save=True)
                data, res = core.evaluate(n_steps=6, quiet=True), []
                for b in [ag, Rec.load(f)]:
                    b.out, Log.pol = [], b.policy
                    torch.manual_seed(2)
                    np.random.seed(2)
                    b.fit(data)
                    res.append(str([b.out, b.policy.get_weights().tolist()]))
                ev.append({'op': 'loaded', 'got': res[1], 'want': res[0]})
    finally:
        shutil.rmtree(tmp)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'recurrent ppo seed=%d' % seed}


def check(chk):
    chk.model('MCBptt', 'MCBptt_thorough' if chk.thorough else 'MCBptt')
    n = 6000 if chk.thorough else 600
    chk.validate('TraceBptt', collect(lambda k: run(chk.seed * 100003 + k), range(n)))
