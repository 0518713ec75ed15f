"""T01: tabular temporal difference algorithms.  T02: eligibility traces."""
import os
import random
import shutil
import tempfile

import numpy as np

from mushroom_rl.algorithms.value import (DoubleQLearning, ExpectedSARSA, MaxminQLearning, QLambda, QLearning, RLearning, RQLearning,
                                          SARSA, SARSALambda, SARSALambdaContinuous, SpeedyQLearning, TrueOnlineSARSALambda,
                                          WeightedQLearning)
from mushroom_rl.core import Agent, Dataset, MDPInfo
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete

from guard import guarded
from lib import NAN, collect, enc, encf

S = 4096


def schedule(d, nS, nA):
    size = (1,) if d['per'] == 'one' else (nS, nA)
    if d['k'] == 'const':
        return Parameter(d['a'] / 16)
    if d['k'] == 'decay':
        return DecayParameter(d['a'] / 16, size=size)
    return LinearParameter(d['a'] / 16, threshold_value=d['b'] / 16, n=d['n'], size=size)


def rand_schedule(rng, kinds):
    k = rng.choice(kinds)
    d = {'k': k, 'a': rng.choice([2, 4, 8, 12, 16]), 'b': 0, 'n': 1, 'per': rng.choice(['one', 'sa'])}
    if k == 'linear':
        d['b'], d['n'] = rng.choice([0, 4, 16]), rng.randint(2, 4)
    if k == 'decay':
        d['a'] = 16
    return d


def one_step(info, agent, s, a, r, s2, ab, last):
    d = Dataset.generate(info, agent.info, n_steps=1)
    d.append((s, a, float(r), s2, bool(ab), bool(last)), {})
    return d


def reload(agent, full):
    d = tempfile.mkdtemp(prefix='vtd_')
    try:
        p = os.path.join(d, 'agent.msh')
        agent.save(p, full_save=full)
        return Agent.load(p)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tables(agent, alg, nT):
    if alg in ('double', 'maxmin'):
        ts = [agent.Q[k].table for k in range(nT)]
    else:
        ts = [agent.Q.table]
    return [enct(t) for t in ts]


def enct(t):
    return [[encf(v, S) for v in row] for row in np.asarray(t)]


ALGS = ['q', 'sarsa', 'esarsa', 'double', 'maxmin', 'weighted', 'speedy', 'r', 'rq']


def run_td(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    alg = ALGS[seed % len(ALGS)]
    nS, nA = rng.randint(2, 4), rng.randint(2, 3)
    nT = {'double': 2, 'maxmin': rng.randint(1, 3)}.get(alg, 1)
    g = rng.choice([0, 8, 12, 14, 16]) if alg == 'r' else rng.choice([0, 4, 8, 12, 14])
    c = {'alg': alg, 'nS': nS, 'nA': nA, 'nT': nT, 'g': g, 'eps': rng.choice([0, 2, 4, 6, 8]), 'prec1': rng.randint(0, 1),
         'off': rng.randint(0, 1), 'usedelta': rng.randint(0, 1),
         'lr': rand_schedule(rng, ['const', 'const', 'decay', 'linear']), 'lb': rand_schedule(rng, ['const'] if alg == 'r' else ['const', 'decay'])}
    if alg == 'r':
        c['lb']['a'] = rng.choice([4, 8, 16])
    ev = []
    info = MDPInfo(Discrete(nS), Discrete(nA), g / 16, 100)
    with guarded(ev, 30):
        lr, lb = schedule(c['lr'], nS, nA), schedule(c['lb'], nS, nA)
        pi = EpsGreedy(c['eps'] / 8)
        if alg == 'q':
            agent = QLearning(info, pi, lr)
        elif alg == 'sarsa':
            agent = SARSA(info, pi, lr)
        elif alg == 'esarsa':
            agent = ExpectedSARSA(info, pi, lr)
        elif alg == 'double':
            agent = DoubleQLearning(info, pi, lr)
        elif alg == 'maxmin':
            agent = MaxminQLearning(info, pi, lr, nT)
        elif alg == 'weighted':
            agent = WeightedQLearning(info, pi, lr, precision=1 if c['prec1'] else 50)
        elif alg == 'speedy':
            agent = SpeedyQLearning(info, pi, lr)
        elif alg == 'r':
            agent = RLearning(info, pi, lr, lb)
        else:
            agent = RQLearning(info, pi, lr, off_policy=bool(c['off']), **{'delta' if c['usedelta'] else 'beta': lb})
        if rng.random() < 0.5 and alg not in ('rq', 'weighted'):
            for k in range(nT):
                t = agent.Q[k].table if nT > 1 or alg in ('double', 'maxmin') else agent.Q.table
                t[:] = np.array([[rng.randint(-16, 16) / 4 for _ in range(nA)] for _ in range(nS)])
            ev.append({'op': 'init', 'q': tables(agent, alg, nT), 'old': enct(agent.old_q.table) if alg == 'speedy' else []})
        s = rng.randrange(nS)
        act = None
        for _ in range(rng.randint(5, 40)):
            if rng.random() < 0.05:
                agent = reload(agent, rng.random() < 0.5)
                ev.append({'op': 'same', 'q': tables(agent, alg, nT)})
                act = None
            if act is None or rng.random() < 0.3:
                a = rng.randrange(nA)
                agent.next_action = None
            else:
                a = act
            s2 = rng.randrange(nS)
            ab = int(rng.random() < 0.2)
            last = ab or rng.random() < 0.1
            r = rng.randint(-4, 4)
            agent.fit(one_step(info, agent, np.array([s]), np.array([a]), r, np.array([s2]), ab, last))
            na = agent.next_action
            na_ = 0 if na is None else int(np.asarray(na).ravel()[0]) + 1
            e = {'op': 'fit', 's': s + 1, 'a': a + 1, 'r': r, 's2': s2 + 1, 'ab': ab, 'na': na_, 'q': tables(agent, alg, nT)}
            if alg == 'rq':
                e['rt'], e['qt'] = enct(agent.R_tilde.table), enct(agent.Q_tilde.table)
            ev.append(e)
            if last:
                s, act = rng.randrange(nS), None
                agent.next_action = None
            else:
                s = s2
                x, _ = agent.draw_action(np.array([s]))
                act = int(np.asarray(x).ravel()[0])
                ev.append({'op': 'draw', 'a': act + 1, 'na': na_})
            if rng.random() < 0.3 and c['eps'] < 8:
                z = rng.randrange(nS)
                p = np.asarray(agent.policy(np.array([z]))).ravel()
                ev.append({'op': 'greedy', 's': z + 1, 'g': [int(k) + 1 for k in np.argwhere(p >= p.max() - 1e-9).ravel()]})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'td %s seed=%d' % (alg, seed)}


def check_td(chk):
    chk.model('MCTD', 'MCTD_thorough' if chk.thorough else 'MCTD')
    n = 4500 if chk.thorough else 540
    chk.validate('TraceTD', collect(lambda k: run_td(chk.seed * 100008 + k), range(n)))


# ---------------------------------------------------------------- eligibility traces

class Phi:
    """State features as a user would write them."""

    def __init__(self, rows):
        self.rows = np.array(rows, dtype=float)
        self.size = self.rows.shape[1]

    def __call__(self, *x):
        s = np.asarray(x[0])
        out = self.rows[np.round(s[..., 0]).astype(int)]
        return out


def weights(agent, alg, c):
    if alg in ('sarsal', 'qlambda'):
        w = np.asarray(agent.Q.table).T
    else:
        w = np.asarray(agent.Q.get_weights()).reshape(c['nA'], c['nF'])
    return [[encf(v, 1024) for v in row] for row in w]


def run_elig(seed):
    from mushroom_rl.approximators.parametric import LinearApproximator
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    alg = ['sarsal', 'qlambda', 'sarsac', 'true'][seed % 4]
    nS, nA = rng.randint(2, 4), rng.randint(2, 3)
    tab = alg in ('sarsal', 'qlambda')
    nF = nS if tab else rng.randint(2, 3)
    rows = [[int(i == j) for j in range(nS)] for i in range(nS)] if tab else [[rng.randint(0, 1) for _ in range(nF)] for _ in range(nS)]
    c = {'alg': alg, 'tr': rng.choice(['replacing', 'accumulating']) if tab else 'accumulating', 'nS': nS, 'nA': nA, 'nF': nF,
         'phi': rows, 'g': rng.choice([0, 8, 8, 16]), 'lam': rng.choice([0, 8, 8, 16]), 'a': rng.choice([2, 4, 8])}
    ev = []
    info = MDPInfo(Discrete(nS), Discrete(nA), c['g'] / 16, 100)
    with guarded(ev, 30):
        pi = EpsGreedy(0.5)
        lr = Parameter(c['a'] / 16)
        if alg == 'sarsal':
            agent = SARSALambda(info, pi, lr, c['lam'] / 16, trace=c['tr'])
        elif alg == 'qlambda':
            agent = QLambda(info, pi, lr, c['lam'] / 16, trace=c['tr'])
        else:
            ap = dict(input_shape=(nF,), output_shape=(nA,), n_actions=nA, phi=Phi(rows))
            if alg == 'sarsac':
                agent = SARSALambdaContinuous(info, pi, LinearApproximator, lr, c['lam'] / 16, approximator_params=ap)
            else:
                agent = TrueOnlineSARSALambda(info, pi, lr, c['lam'] / 16, approximator_params=ap)
        if rng.random() < 0.4:
            w0 = np.array([[rng.randint(-8, 8) / 4 for _ in range(nF)] for _ in range(nA)])
            if tab:
                agent.Q.table[:] = w0.T
            else:
                agent.Q.set_weights(w0.ravel())
            ev.append({'op': 'init', 'w': weights(agent, alg, c)})
        for _ in range(rng.randint(1, 6)):
            s = rng.randrange(nS)
            agent.episode_start(np.array([s]), {})
            agent.next_action = None
            ev.append({'op': 'start'})
            act = None
            for t in range(rng.randint(1, 7)):
                if rng.random() < 0.04:
                    agent = reload(agent, True)
                    ev.append({'op': 'same', 'w': weights(agent, alg, c)})
                    act = None
                if act is None or rng.random() < 0.4:
                    a = rng.randrange(nA)
                    agent.next_action = None
                else:
                    a = act
                s2 = rng.choice([s, rng.randrange(nS)])
                ab, r = int(rng.random() < 0.15), rng.randint(-3, 3)
                agent.fit(one_step(info, agent, np.array([s]), np.array([a]), r, np.array([s2]), ab, ab))
                na = agent.next_action
                na_ = 0 if na is None else int(np.asarray(na).ravel()[0]) + 1
                w = weights(agent, alg, c)
                if max(abs(v) for row in w for v in row) > (24 if tab else 10) * 1024:
                    break
                ev.append({'op': 'fit', 's': s + 1, 'a': a + 1, 'r': r, 's2': s2 + 1, 'ab': ab, 'na': na_, 'w': w})
                if ab:
                    break
                s = s2
                x, _ = agent.draw_action(np.array([s]))
                act = int(np.asarray(x).ravel()[0])
                ev.append({'op': 'draw', 'a': act + 1, 'na': na_})
            else:
                continue
            if max(abs(v) for row in w for v in row) > (24 if tab else 10) * 1024:
                break
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'elig %s %s seed=%d' % (alg, c['tr'], seed)}


def check_elig(chk):
    chk.model('MCElig', 'MCElig_thorough' if chk.thorough else 'MCElig')
    n = 2400 if chk.thorough else 480
    chk.validate('TraceElig', collect(lambda k: run_elig(chk.seed * 100008 + k), range(n)))
