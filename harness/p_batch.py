"""B01: fitted Q-iteration (plain, double, boosted) and least-squares policy iteration."""
import copy
import os
import random
import shutil
import tempfile

import numpy as np

from mushroom_rl.algorithms.value import LSPI, BoostedFQI, DoubleFQI, FQI
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Agent, Dataset, MDPInfo
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete

from guard import guarded
from lib import collect, encf

U = 10000


def feat(x, nS):
    v = np.zeros(nS)
    if x < nS:
        v[x] = 1.
    return v


class Onehot:
    """Features of the state given by its index; the absorbing state has none."""

    def __init__(self, nS):
        self.nS = nS

    def __call__(self, x):
        x = np.asarray(x)
        return feat(int(x[0]), self.nS) if x.ndim == 1 else np.array([feat(int(z[0]), self.nS) for z in x])


def reload(agent):
    d = tempfile.mkdtemp(prefix='vbt_')
    try:
        p = os.path.join(d, 'agent.msh')
        agent.save(p)
        return Agent.load(p)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def table(agent, c, idx=None):
    kw = {} if idx is None else {'idx': idx}
    q = agent.approximator.predict(np.arange(c['nS'], dtype=float).reshape(-1, 1), **kw)
    return [[encf(v, U) for v in row] for row in np.asarray(q).reshape(c['nS'], c['nA'])]


def tables(agent, c):
    n = {'double': 2, 'boosted': c['n']}.get(c['alg'])
    return [table(agent, c)] if n is None else [table(agent, c, i) for i in range(n)]


def samples(rng, c, cover):
    nS, nA = c['nS'], c['nA']
    cells = [(x, a) for x in range(nS) for a in range(nA)]
    if not cover:
        cells = [z for z in cells if rng.random() < .8] or cells
    else:
        cells = cells * (2 if c['alg'] == 'double' else 1)
    cells = cells + [rng.choice(cells) for _ in range(rng.randint(0, 4))]
    if cover and c['alg'] == 'double':
        h = [(x, a) for x in range(nS) for a in range(nA)]
        cells = rng.sample(h, len(h)) + rng.sample(h, len(h)) + ([h[0]] if rng.random() < .5 else [])
    else:
        rng.shuffle(cells)
    if len(cells) < 2:
        cells = cells * 2
    ds = []
    for x, a in cells:
        ab = int(rng.random() < .25)
        xn = rng.choice([nS, rng.randrange(nS)]) if ab else rng.randrange(nS)
        if c['alg'] == 'lspi' and ab:
            xn = nS
        ds.append((x, a, rng.randint(-4, 4), xn, ab, int(ab or rng.random() < .2)))
    return ds


def dataset(mi, ag, ds):
    d = Dataset.generate(mi, ag.info, n_steps=len(ds))
    for x, a, r, xn, ab, last in ds:
        d.append((np.array([float(x)]), np.array([a]), float(r), np.array([float(xn)]), bool(ab), bool(last)), {})
    return d


def run_batch(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    c = {'alg': ['fqi', 'double', 'boosted', 'lspi'][seed % 4], 'nS': rng.randint(1, 3), 'nA': rng.randint(2, 3), 'g': rng.randint(0, 4),
         'n': rng.randint(1, 4)}
    if c['alg'] == 'lspi':
        c['g'] = rng.randint(0, 3)
    ev = []
    with guarded(ev, 60):
        mi = MDPInfo(Box(0., 10., (1,)), Discrete(c['nA']), c['g'] / 4, 100)
        if rng.random() < .3:
            mi = copy.deepcopy(mi)
        pi = EpsGreedy(0.)
        ap = dict(input_shape=(c['nS'],), n_actions=c['nA'], phi=Onehot(c['nS']))
        n = Parameter(c['n']) if rng.random() < .3 else c['n']
        if c['alg'] == 'fqi':
            ap['output_shape'] = (1,)
            ag = FQI(mi, pi, LinearApproximator, n, approximator_params=ap, quiet=True)
        elif c['alg'] == 'double':
            ag = DoubleFQI(mi, pi, LinearApproximator, n, approximator_params=ap, quiet=True)
        elif c['alg'] == 'boosted':
            ag = BoostedFQI(mi, pi, LinearApproximator, c['n'], approximator_params=dict(ap, n_models=c['n'], prediction='sum'), quiet=True)
        else:
            ag = LSPI(mi, pi, approximator_params=dict(ap, input_shape=(c['nS'],), output_shape=(c['nA'],)), epsilon=rng.choice([1e-2, 1e-6]))
        fits = 1 if c['alg'] in ('double', 'boosted') else rng.randint(1, 3)
        if c['alg'] == 'double':
            fits = rng.randint(1, 2)
        ds = samples(rng, c, c['alg'] == 'lspi' or rng.random() < .5)
        for _ in range(fits):
            d = dataset(mi, ag, ds)
            before = [np.array(z) for z in d.parse(to='numpy')]
            ag.fit(d)
            same = all(np.array_equal(a, b) for a, b in zip(before, d.parse(to='numpy')))
            acts = [int(ag.draw_action(np.array([float(x)]))[0][0]) + 1 for x in range(c['nS'])]
            ev.append({'op': 'fit', 'ds': [[x + 1, a + 1, r, xn + 1, ab] for x, a, r, xn, ab, _ in ds], 'q': tables(ag, c), 'p': table(ag, c),
                       'acts': acts, 'same': int(same)})
            if rng.random() < .25 and c['alg'] != 'boosted':
                ag = reload(ag)
                ev.append({'op': 'same', 'q': tables(ag, c)})
            if c['alg'] != 'double' and rng.random() < .6:
                ds = samples(rng, c, c['alg'] == 'lspi' or rng.random() < .5)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'batch %s seed=%d' % (c['alg'], seed)}


def run_lspi_absorbing(seed):
    """The absorbing next state has the features of a state of the dataset."""
    rng = random.Random(seed)
    c = {'alg': 'lspi', 'nS': 1, 'nA': 2, 'g': 2, 'n': 1}
    ev = []
    with guarded(ev, 60):
        mi = MDPInfo(Box(0., 10., (1,)), Discrete(2), .5, 100)
        ag = LSPI(mi, EpsGreedy(0.), approximator_params=dict(input_shape=(1,), n_actions=2, output_shape=(2,), phi=Onehot(1)))
        ds = [(0, 0, 1, 0, 1, 1), (0, 1, 0, 0, 1, 1)]
        d = dataset(mi, ag, ds)
        ag.fit(d)
        ev.append({'op': 'fit', 'ds': [[x + 1, a + 1, r, xn + 1, ab] for x, a, r, xn, ab, _ in ds], 'q': tables(ag, c), 'p': table(ag, c),
                   'acts': [int(ag.draw_action(np.array([0.]))[0][0]) + 1], 'same': 1})
    return {'cfg': c, 'ev': ev, 'kind': 'LSPI from an absorbing state'}


def check(chk):
    chk.model('MCBatchTD', 'MCBatchTD_thorough' if chk.thorough else 'MCBatchTD')
    n = 6000 if chk.thorough else 600
    chk.validate('TraceBatchTD', collect(lambda k: run_batch(chk.seed * 100103 + k), range(n)))
    # known: the value of the absorbing state is used, giving 1 + 2/2 and 0 + 2/2
    chk.validate('TraceBatchTD', [run_lspi_absorbing(0)], keyfn=lambda tr, n, cl: 'lspi-bootstraps-from-absorbing-states'
                 if cl == ['LspiFixedPoint'] and tr['ev'][0]['q'] == [[[20000, 10000]]] else None)
