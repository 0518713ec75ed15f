"""A02: what DDPG, TD3 and SAC update, when, on which samples and towards which targets."""
import math
import random

import numpy as np
import torch

from mushroom_rl.algorithms.actor_critic import DDPG, SAC, TD3
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.policy import OrnsteinUhlenbeckPolicy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Box

from guard import guarded
from lib import NAN, collect, enc, encf

V = 4096
G = {}


class Table(torch.nn.Module):
    """A network whose parameters are a table over the states."""
    role = ''

    def __init__(self, input_shape, output_shape, nS=2, cols=1, **kw):
        super().__init__()
        self.nS = nS
        self.t = torch.nn.Parameter(torch.tensor(table(G['rng'], nS, cols, self.role), dtype=torch.float32))
        self.first = self.t.detach().clone()
        G['nets'].append(self)

    def idx(self, state):
        return torch.round(state[..., 0]).long() % self.nS


class Critic(Table):
    role = 'critic'

    def forward(self, state, action):
        w = self.t[self.idx(state)]
        a = action.float().reshape(len(w), -1)
        q = w[:, 0] + (w[:, 1:] * a).sum(-1)
        G['calls'].append((self, q, state.detach().clone(), a.detach().clone()))
        return q


class Actor(Table):
    role = 'actor'

    def forward(self, state):
        return self.t[self.idx(state)]


class Sigma(Table):
    role = 'sigma'

    def forward(self, state):
        return self.t[self.idx(state)]


def table(rng, nS, cols, role):
    if role == 'sigma':
        return [[rng.randint(-16, -2) / 8 for _ in range(cols)] for _ in range(nS)]
    m = {'critic': 12, 'actor': 8}[role]
    return [[rng.randint(-m, m) / 8 for _ in range(cols)] for _ in range(nS)]


def loss(y_hat, y, **kw):
    call = [c for c in G['calls'] if c[1] is y_hat]
    G['losses'].append((call[-1] if call else None, y.detach().clone()))
    return ((y_hat - y) ** 2).mean()


class Scripted(torch.optim.SGD):
    """Optimizer of the user: moves the parameters to scripted values."""

    def step(self, closure=None):
        ps = [p for g in self.param_groups for p in g['params']]
        G['steps'].append(([n for n in G['nets'] if any(n.t is p for p in ps)], [None if p.grad is None else p.grad.clone() for p in ps]))
        for p in ps:
            role = [n.role for n in G['nets'] if n.t is p]
            with torch.no_grad():
                p.copy_(torch.tensor(table(G['rng'], *p.shape, role[0] if role else 'critic'), dtype=torch.float32))
        G['after'] = {id(n): n.t.detach().clone() for n in G['nets'] if any(n.t is p for p in ps)} | G['after']
        for n in G['nets']:
            if any(n.t is p for p in ps):
                G['after'][id(n)] = n.t.detach().clone()


def clipper(params, tag=None):
    params = list(params)
    G['clips'].append(len(params) > 0 and all(p.grad is not None for p in params) and any(n.role == 'actor' and n.t is p for n in G['nets'] for p in params))


def enct(t):
    return [[encf(v, V) for v in row] for row in t.detach().numpy()]


def logprob(mu, ls, a, low, high, lsmin, lsmax):
    """log density of a tanh-squashed Gaussian, as defined by the SAC policy."""
    res = 0.
    for d in range(len(a)):
        x = (a[d] - .5 * (high[d] + low[d])) / (.5 * (high[d] - low[d]))
        x = min(max(x, -1 + 1e-7), 1 - 1e-7)
        raw, sg = math.atanh(x), math.exp(min(max(ls[d], lsmin), lsmax))
        res += -((raw - mu[d]) ** 2) / (2 * sg * sg) - math.log(sg) - .5 * math.log(2 * math.pi) - math.log(1 - x * x + 1e-6)
    return res


def run(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    torch.manual_seed(seed)
    alg = ['ddpg', 'td3', 'sac'][seed % 3]
    nS, nD = rng.randint(2, 3), rng.randint(1, 2)
    low = [rng.choice([-1., -2., 0.]) for _ in range(nD)]
    high = [rng.choice([1., 2.]) for _ in range(nD)]
    c = {'alg': alg, 'nS': nS, 'nD': nD, 'nM': {'ddpg': 1, 'td3': rng.randint(2, 3), 'sac': 2}[alg], 'g': rng.choice([4, 7, 8]),
         'tau': rng.choice([1, 2, 4, 8]), 'delay': rng.randint(1, 3), 'init': rng.choice([1, 3]), 'warm': rng.choice([2, 5, 7]),
         'cap': rng.choice([6, 9, 20]), 'bs': rng.randint(2, 4), 'lo': [int(x * V) for x in low], 'hi': [int(x * V) for x in high],
         'clipg': rng.randint(0, 1), 'lra': 0, 'eplus': 1024, 'eminus': 1024}
    nc = rng.choice([.25, .5])
    ns = rng.choice([0., .2, 10 * nc])
    c['nc'], c['ns'] = int(nc * V), int(ns * V)
    lra = rng.choice([0., .125])
    if lra:
        c['lra'], c['eplus'], c['eminus'] = 1, round(1024 * math.exp(lra)), round(1024 * math.exp(-lra))
    lsmin, lsmax = rng.choice([(-20, 2), (-1, -.5)])
    H = rng.choice([None, -1., 2.])
    ev = []
    G.update(rng=rng, nets=[], calls=[], losses=[], steps=[], clips=[], after={})
    info = MDPInfo(Box(0, 100000, shape=(1,)), Box(np.array(low), np.array(high)), c['g'] / 8, 100)
    with guarded(ev, 60):
        cp = dict(network=Critic, nS=nS, cols=1 + nD, input_shape=((1,), (nD,)), output_shape=(1,), loss=loss,
                  optimizer={'class': Scripted, 'params': {'lr': 1.}})
        if alg == 'td3' and (c['nM'] != 2 or rng.random() < .5):
            cp['n_models'] = c['nM']
        ao = {'class': Scripted, 'params': {'lr': 1.}}
        if c['clipg']:
            ao['clipping'] = {'method': clipper, 'params': {'tag': 1}}
        ap = dict(network=Actor, nS=nS, cols=nD, input_shape=(1,), output_shape=(nD,))
        asis = rng.random() < .5
        tau, delay, bs = ((c['tau'] / 8, c['delay'], c['bs']) if asis else
                          (Parameter(c['tau'] / 8), Parameter(c['delay']), Parameter(c['bs'])))
        if not asis:
            bs = c['bs']
        kw = dict(batch_size=bs, initial_replay_size=c['init'], max_replay_size=c['cap'], tau=tau)
        if alg == 'sac':
            sp = dict(ap, network=Sigma)
            agent = SAC(info, actor_mu_params=ap, actor_sigma_params=sp, actor_optimizer=ao, critic_params=cp, warmup_transitions=c['warm'],
                        lr_alpha=lra, use_log_alpha_loss=rng.random() < .5, log_std_min=lsmin, log_std_max=lsmax, target_entropy=H, **kw)
        else:
            pp = dict(sigma=np.ones(nD) * .2, theta=.15, dt=1e-2)
            if alg == 'td3':
                agent = TD3(info, OrnsteinUhlenbeckPolicy, pp, ap, ao, cp, policy_delay=delay, noise_std=ns, noise_clip=nc, **kw)
            else:
                agent = DDPG(info, OrnsteinUhlenbeckPolicy, pp, ap, ao, cp, policy_delay=delay, **kw)
        Hv = -float(nD) if H is None else H
        nid, raws = 1, []
        for _ in range(rng.randint(8, 30)):
            k = rng.choice([1, 1, 2])
            ds = Dataset.generate(info, agent.info, n_steps=k)
            tr = []
            for j in range(k):
                ab = int(rng.random() < .25)
                act = [rng.choice([low[d], high[d], low[d] / 2]) for d in range(nD)]
                t = {'id': nid, 'r': rng.randint(-4, 4), 's2': rng.randrange(1000), 'ab': ab, 'act': [int(x * V) for x in act]}
                ds.append((torch.tensor([float(nid)]), torch.tensor(act), t['r'] / 2, torch.tensor([float(t['s2'])]), bool(ab),
                           bool(ab or rng.random() < .2)), {})
                t['r'] = t['r'] * V // 2
                tr.append(t)
                nid += 1
            G.update(calls=[], losses=[], steps=[], clips=[], after={})
            agent.fit(ds)
            raws.append((tr, dict(G, rng=None, nets=None), {id(n): n.t.detach().clone() for n in G['nets']}))
    # roles of the networks: the critics that were fitted are the online ones, in the order of fitting; the actor is the one stepped
    online, actors = [], []
    for _, g, _ in raws:
        for call, _ in g['losses']:
            if call is not None and all(call[0] is not n for n in online):
                online.append(call[0])
        for nets, _ in g['steps']:
            for n in nets:
                if n.role in ('actor', 'sigma') and all(n is not m for m in actors):
                    actors.append(n)
    mus, sigmas = [n for n in actors if n.role == 'actor'], [n for n in actors if n.role == 'sigma']
    if not mus and alg == 'sac':
        mus, sigmas = [n for n in G['nets'] if n.role == 'actor'][:1], [n for n in G['nets'] if n.role == 'sigma'][:1]
    if len(online) != c['nM'] or len(mus) != 1 or (alg == 'sac' and len(sigmas) != 1):
        if not raws or len(raws[-1][2]) == 0 or not any(g['losses'] for _, g, _ in raws):
            pass
        ready = sum(len(t) for t, _, _ in raws) > c['init']
        if ready:
            ev.append({'op': 'exc', 'what': 'roles of the networks: %d critics fitted, %d actors updated' % (len(online), len(mus))})
        return {'cfg': c, 'ev': ev + [{'op': 'end'}], 'kind': 'deepac %s seed=%d' % (alg, seed)}
    out = [{'op': 'init', 'w': [enct(n.first) for n in online], 'u': [enct(mus[0].first)]}]
    mu, sg = mus[0].first, (sigmas[0].first if sigmas else None)
    for tr, g, now in raws:
        fits = []
        for call, y in g['losses']:
            m = [i + 1 for i, n in enumerate(online) if call is not None and n is call[0]]
            fits.append({'m': m[0] if m else 0, 'ids': [enc(x) for x in call[2][:, 0]] if call else [],
                         'acts': [[encf(v, V) for v in row] for row in call[3]] if call else [], 'y': [encf(v, V) for v in y.reshape(-1)]})
        pol0 = (mu, sg)
        mu = now[id(mus[0])]
        sg = now[id(sigmas[0])] if sigmas else None
        tc = [x for x in g['calls'] if x[0] not in online]
        nx = {'ids': [], 'acts': [], 'lp': [], 'same': 1}
        if tc:
            nx['ids'] = [enc(x) for x in tc[0][2][:, 0]]
            nx['acts'] = [[encf(v, V) for v in row] for row in tc[0][3]]
            nx['same'] = int(all(torch.equal(x[2], tc[0][2]) and torch.equal(x[3], tc[0][3]) for x in tc) and len({id(x[0]) for x in tc}) == c['nM'])
            nx['lp'] = [0] * len(nx['ids'])
            if alg == 'sac':
                lps = [logprob(mu[i % nS].tolist(), sg[i % nS].tolist(), a.tolist(), low, high, lsmin, lsmax) for i, a in zip(nx['ids'], tc[0][3])]
                nx['lp'] = [encf(x, V) for x in lps]
        asteps = [(nets, gr) for nets, gr in g['steps'] if any(n is mus[0] for n in nets)]
        e = {'op': 'fit', 'tr': tr, 'fits': fits, 'nx': nx, 'steps': len(asteps), 'clips': sum(g['clips']) if all(g['clips']) else -1,
             'w': [enct(now[id(n)]) for n in online], 'u': [enct(mu)], 'dir': 0, 'al': 0,
             'wn': [enct(g['after'].get(id(n), now[id(n)])) for n in online], 'un': [enct(g['after'].get(id(mus[0]), mu))], 'grad': []}
        if asteps and alg != 'sac':
            gr = asteps[0][1][0]
            e['grad'] = enct(gr) if gr is not None else [[NAN] * nD] * nS
        if asteps and alg == 'sac':
            pc = [x for x in g['calls'] if x[0] in online][:2]
            lpn = [logprob(pol0[0][int(i) % nS].tolist(), pol0[1][int(i) % nS].tolist(), a.tolist(), low, high, lsmin, lsmax)
                   for i, a in zip(pc[0][2][:, 0], pc[0][3])]
            d = sum(lpn) / len(lpn) + Hv
            e['dir'] = 0 if abs(d) < .05 else (1 if d > 0 else -1)
        if alg == 'sac' and fits and tc and c['lra']:
            mem = {t['id']: t for t2, _, _ in raws for t in t2}
            best = None
            for i, k in enumerate(fits[0]['ids']):
                t = mem.get(k)
                if t and not t['ab'] and i < len(lps) and (best is None or abs(lps[i]) > abs(lps[best])):
                    best = i
            if best is not None and abs(lps[best]) > 1.:
                q = min(float(x[1][best]) for x in tc)
                y = fits[0]['y'][best] / V - mem[fits[0]['ids'][best]]['r'] / V
                e['al'] = encf((q - y / (c['g'] / 8)) / lps[best], V)
        out.append(e)
    return {'cfg': c, 'ev': out + ev + [{'op': 'end'}], 'kind': 'deepac %s seed=%d' % (alg, seed)}


def check(chk):
    chk.model('MCDeepAC', 'MCDeepAC_thorough' if chk.thorough else 'MCDeepAC')
    n = 5000 if chk.thorough else 800
    chk.validate('TraceDeepAC', collect(lambda k: run(chk.seed * 100011 + k), range(n)))
