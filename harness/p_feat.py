"""F01: features."""
import random

import numpy as np
import torch

from mushroom_rl.features import Features, get_action_features
from mushroom_rl.features.basis import FourierBasis, GaussianRBF, PolynomialBasis
from mushroom_rl.features.tensors import ConstantTensor, GaussianRBFTensor, RandomFourierBasis, VonMisesBFTensor
from mushroom_rl.features.tiles import Tiles, VoronoiTiles

from guard import guarded
from lib import collect, encf
from p_dist import E1, E2

E = lambda v: encf(v, 10 ** 6)
V = lambda x: [E(v) for v in np.asarray(x, dtype=float).reshape(-1)]


def feed(rng, ev, phi, d, draw, tiles=False, batches=(1, 2, 4)):
    """Single inputs, batches, and inputs given in two parts must all give the features of each row."""
    for _ in range(rng.randint(2, 5)):
        n = rng.choice(batches)
        X = np.array([draw() for _ in range(n)], dtype=float)
        X0 = X.copy()
        mode = rng.choice(['one', 'batch', 'split'])
        if mode == 'one':
            ys = [phi(X[i]) for i in range(n)]
            shapes = all(np.shape(y) == (phi.size,) for y in ys)
        elif mode == 'batch' or d == 1:
            y = phi(X)
            ys = [y] if n == 1 else list(y)
            shapes = np.shape(y) == ((phi.size,) if n == 1 else (n, phi.size))
        else:
            k = rng.randint(1, d - 1)
            y = phi(X[:, :k], X[:, k:])
            ys = [y] if n == 1 else list(y)
            shapes = np.shape(y) == ((phi.size,) if n == 1 else (n, phi.size))
        ev.append({'op': 'count', 'got': int(shapes), 'want': 1})
        ev.append({'op': 'count', 'got': len(ys), 'want': n})
        for i, y in enumerate(ys):
            ev.append({'op': 'phi', 'x': V(X0[i]), 'y': V(y), 'size': int(phi.size)})
        ev.append({'op': 'same', 'same': int(np.array_equal(X, X0))})
        if tiles:
            ix = phi.compute_indexes(X)
            ix = [ix] if n == 1 else ix
            for i in range(n):
                ev.append({'op': 'ix', 'y': V(phi(X[i])), 'ix': [int(k) for k in ix[i]]})


def grid(rng, lo, hi, over=8):
    """A point on the 1/16 grid, in or slightly out of the ranges (given in 1/16)."""
    return [rng.randint(a - over, b + over) / 16 for a, b in zip(lo, hi)]


def ranges(rng, d, top=40):
    lo = [rng.randint(-32, 16) for _ in range(d)]
    return lo, [a + rng.randint(8, top) for a in lo]


def run_tiles(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    ev = []
    kind = rng.choice(['tiles', 'gen', 'gen', 'vor'])
    d = rng.randint(1, 3)
    lo, hi = ranges(rng, d)
    c = {'k': kind}
    with guarded(ev, 30):
        if kind == 'tiles':
            c['T'], ts = [], []
            for _ in range(rng.randint(1, 3)):
                comps = rng.sample(range(d), rng.randint(1, d)) if rng.random() < .5 else None
                m = d if comps is None else len(comps)
                a, b = ranges(rng, m)
                n = [rng.randint(1, 4) for _ in range(m)]
                c['T'].append({'lo': a, 'hi': b, 'n': n, 'dims': [i + 1 for i in comps] if comps else []})
                r = [[x / 16, y / 16] for x, y in zip(a, b)]
                if m == 1 and rng.random() < .5:
                    r = r[0]
                ts.append(Tiles(r, n if rng.random() < .7 or len(set(n)) > 1 else n[0], comps))
            phi = Features(tilings=ts if len(ts) > 1 or rng.random() < .5 else ts[0])
        elif kind == 'gen':
            n = [rng.randint(1, 3 if d == 3 else 4) for _ in range(d)]
            nt = rng.randint(1, 5)
            uni = rng.random() < .5
            c.update(lo=lo, hi=hi, n=n, nt=nt, uni=int(uni))
            phi = Features(tilings=Tiles.generate(nt, n, np.array(lo) / 16, np.array(hi) / 16, uniform=uni))
            k = Tiles.generate(-1, n, np.array(lo) / 16, np.array(hi) / 16)
            ev.append({'op': 'auto', 'd': d, 'n': max(n), 'got': len(k)})
        else:
            P = [[[rng.randint(-32, 32) for _ in range(d)] for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 3))]
            c['P'] = P
            phi = Features(tilings=[VoronoiTiles(np.array(p) / 16) for p in P])
            m = rng.randint(1, 6)
            g = VoronoiTiles.generate(3, m, low=np.array(lo) / 16, high=np.array(hi) / 16)
            f = Features(tilings=g)
            y = f(np.array([0.] * d))
            ev.append({'op': 'count', 'got': [len(g), int(f.size), int(y.sum())], 'want': [3, 3 * m, 3]})
            k = VoronoiTiles.generate(-1, m, low=np.array(lo) / 16, high=np.array(hi) / 16)
            ev.append({'op': 'auto', 'd': d, 'n': m, 'got': len(k)})
        feed(rng, ev, phi, d, lambda: grid(rng, lo, hi), tiles=True)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': '%s seed=%d' % (kind, seed)}


def run_basis(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    ev = []
    kind = rng.choice(['poly', 'polygen', 'four', 'fourgen', 'rbf', 'rbf', 'rbfgen', 'rbfgen', 'rff', 'fun'])
    d = rng.randint(1, 3)
    lo, hi = ranges(rng, d, 24)
    L, H = np.array(lo) / 16, np.array(hi) / 16
    c = {'k': kind, 'd': d, 'lo': lo, 'hi': hi, 'nrm': 0, 'dims': [], 'cyc': 0, 'e1': E1, 'e2': E2}
    draw = lambda: grid(rng, lo, hi, 2)
    bt = (1, 2, 4)
    with guarded(ev, 30):
        if kind in ('poly', 'polygen'):
            c['nrm'] = int(rng.random() < .5)
            kw = {'low': L, 'high': H} if c['nrm'] else {}
            if kind == 'poly':
                c['e'] = [[rng.randint(0, 2) for _ in range(d)] for _ in range(rng.randint(1, 4))]
                bs = []
                for e in c['e']:
                    dims = [i for i in range(d) if e[i]]
                    bs.append(PolynomialBasis(dims, [e[i] for i in dims], **kw) if dims else PolynomialBasis())
            else:
                c['deg'] = rng.randint(0, 3)
                bs = PolynomialBasis.generate(c['deg'], d, **kw)
            phi = Features(basis_list=bs)
            if not c['nrm']:
                draw = lambda: [rng.randint(-32, 32) / 16 for _ in range(d)]
        elif kind in ('four', 'fourgen'):
            m = d
            dims = None
            if rng.random() < .5:
                m = rng.randint(1, d)
                dims = rng.sample(range(d), m)
                c['dims'] = [i + 1 for i in dims]
                c['lo'], c['hi'] = [lo[i] for i in dims], [hi[i] for i in dims]
            l, h = np.array(c['lo']) / 16, np.array(c['hi']) / 16
            if kind == 'four':
                c['e'] = [[rng.randint(0, 4) for _ in range(m)] for _ in range(rng.randint(1, 4))]
                bs = [FourierBasis(l, h - l, np.array(e, dtype=float), dims) for e in c['e']]
            else:
                c['deg'] = rng.randint(0, 3)
                bs = FourierBasis.generate(l, h, c['deg'], dims)
            phi = Features(basis_list=bs)
        elif kind in ('rbf', 'rbfgen'):
            m, dims = d, None
            if rng.random() < .5:
                m = rng.randint(1, d)
                dims = rng.sample(range(d), m)
                c['dims'] = [i + 1 for i in dims]
            tensor = rng.random() < .6
            if tensor:
                c['cyc'] = int(rng.random() < .5)
                c['nrm'] = int(rng.random() < .5)
            cls = VonMisesBFTensor if c['cyc'] else GaussianRBFTensor
            if kind == 'rbf':
                n = rng.randint(1, 4)
                mu = np.array([[rng.randint(-16, 16) / 16 for _ in range(m)] for _ in range(n)])
                sc = np.array([rng.choice([.5, 1., 2.]) for _ in range(m)])
                c['mu'], c['sc'] = [V(r) for r in mu], V(sc)
                phi = Features(tensor_list=[cls(mu, sc, dims, bool(c['nrm']))]) if tensor else Features(basis_list=[GaussianRBF(r, sc, dims) for r in mu])
                draw = lambda: [rng.randint(-24, 24) / 16 for _ in range(d)]
            else:
                idx = dims or list(range(d))
                c['lo'], c['hi'] = [lo[i] for i in idx], [hi[i] for i in idx]
                c['n'] = [rng.randint(1, 4 if m < 3 else 2) for _ in range(m)]
                c['eta'] = rng.choice([25, 50, 75])
                l, h = np.array(c['lo']) / 16, np.array(c['hi']) / 16
                kw = dict(dimensions=dims, eta=c['eta'] / 100)
                phi = Features(tensor_list=cls.generate(c['n'], l, h, normalized=bool(c['nrm']), **kw)) if tensor else Features(basis_list=GaussianRBF.generate(c['n'], l, h, **kw))
        elif kind == 'rff':
            n = rng.randint(1, 4)
            P = np.array([[rng.randint(-32, 32) / 16 for _ in range(n)] for _ in range(d)])
            ph = np.array([rng.randint(-48, 48) / 16 for _ in range(n)])
            nu = rng.randint(8, 48)
            c.update(Pm=[V(r) for r in P], phi=V(ph), nu=nu, bias=int(rng.random() < .5))
            phi = Features(tensor_list=[RandomFourierBasis(P, ph, nu / 16)] + ([ConstantTensor()] if c['bias'] else []))
            k = rng.randint(2, 9)
            ub = rng.random() < .6
            g = Features(tensor_list=RandomFourierBasis.generate(1.5, k, d) if ub and rng.random() < .5 else RandomFourierBasis.generate(1.5, k, d, use_bias=ub))
            ys = np.array([g(np.array([rng.uniform(-3, 3) for _ in range(d)])) for _ in range(6)])
            ev.append({'op': 'count', 'got': [int(g.size), ys.shape[1], int((np.abs(ys - 1) < 1e-9).all(0).sum())], 'want': [k, k, int(ub)]})
        else:
            c['m'] = rng.choice([1, 2, 3])
            m = c['m']
            phi = Features(n_outputs=d, function=None if m == 1 else (lambda x: m * x))
            bt = (2, 4)      # the function decides about the shape of a batch of one row
        feed(rng, ev, phi, d, draw, batches=bt)
        # state-action features
        nA = rng.randint(2, 4)
        X = np.array([[rng.randint(-8, 8) for _ in range(d)] for _ in range(3)], dtype=float)
        a = np.array([[rng.randrange(nA)] for _ in range(3)])
        y = get_action_features(X, a, nA)
        for i in range(3):
            ev.append({'op': 'act', 'x': V(X[i]), 'a': int(a[i, 0]), 'n': nA, 'y': V(y[i])})
            ev.append({'op': 'act', 'x': V(X[i]), 'a': int(a[i, 0]), 'n': nA, 'y': V(get_action_features(X[i], a[i], nA))})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': '%s seed=%d' % (kind, seed)}


def check(chk):
    chk.model('MCFeat', 'MCFeat_thorough' if chk.thorough else 'MCFeat')
    n = 3000 if chk.thorough else 300
    for f in (run_tiles, run_basis):
        chk.validate('TraceFeat', collect(lambda k: f(chk.seed * 100151 + k), range(n)))
