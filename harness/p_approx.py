"""V01: tables, linear models, CMAC, ensembles, regressors.  V02: torch approximators (see p_torch.py)."""
import random

import numpy as np
import torch

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.parametric import CMAC, LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.approximators.table import Table
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.features.tiles import Tiles

from guard import guarded
from lib import collect, encf

E = lambda v: encf(v, 10 ** 6)
V = lambda x: [E(v) for v in np.asarray(x.detach().numpy() if isinstance(x, torch.Tensor) else x, dtype=float).reshape(-1)]
HOW = ['mean', 'sum', 'min', 'max']


class Net(torch.nn.Module):
    """A linear network with the weights of the trace."""
    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()
        self.f = torch.nn.Linear(input_shape[-1], output_shape[0], bias=False).double()

    def forward(self, x, action=None):
        y = self.f(x)
        return y if action is None else y.gather(1, action.long()).squeeze(1)


def run_table(seed):
    rng = random.Random(seed)
    ev = []
    nS, nA = rng.randint(1, 4), rng.randint(2, 4)
    v0 = rng.choice([0, 0, 8, -24, 16])
    n = rng.choice([0, 0, 1, 2, 3])
    how = rng.choice(HOW)
    c = {'k': 'table', 'phi': 'id', 'cmac': 0, 'M': [[[[v0 * 62500] * nA for _ in range(nS)] for _ in range(max(n, 1))]]}
    with guarded(ev, 30):
        kw = {} if v0 == 0 else {'initial_value': v0 / 16}
        if n == 0:
            t = Table((nS, nA), **kw)
        else:
            t = EnsembleTable(n, (nS, nA), prediction=how, **kw) if how != 'mean' or rng.random() < .5 else EnsembleTable(n, (nS, nA), **kw)
        ev.append({'op': 'count', 'got': [int(t.n_actions), list((t if n == 0 else t.model[0]).shape), 1 if n == 0 else len(t)], 'want': [nA, [nS, nA], max(n, 1)]})
        for _ in range(rng.randint(6, 20)):
            s, a = rng.randrange(nS), rng.randrange(nA)
            if rng.random() < .5:
                v = rng.randint(-64, 64)
                k = rng.randrange(n) if n and rng.random() < .6 else None
                form = rng.randrange(4)
                x = [(np.array([s]), np.array([a])), (s, a), (np.array([s]), a), (s, np.array([a]))][form]
                if n == 0:
                    if rng.random() < .5:
                        t.fit(x, v / 16)
                    else:
                        t[x] = v / 16
                elif k is None:
                    t.fit(x, v / 16)
                elif rng.random() < .5:
                    t.fit(x, v / 16, idx=k)
                else:
                    t[k][x] = v / 16
                ev.append({'op': 'cell', 'x': s, 'a': a, 'v': 62500 * v, 'idx': list(range(max(n, 1))) if k is None else [k]})
            else:
                m = rng.choice([0, 0, 2, 3])         # 0: a single state
                ss = [s] + [rng.randrange(nS) for _ in range(m - 1)]
                aa = [a] + [rng.randrange(nA) for _ in range(m - 1)]
                full = rng.random() < .5
                S, A = (np.array([s]), np.array([a])) if m == 0 else (np.array(ss).reshape(-1, 1), np.array(aa).reshape(-1, 1))
                z = (S,) if full else (S, A)
                if n == 0:
                    if m == 0 and rng.random() < .3:
                        y, idx, h, var = (t[S, :] if full else t[S, A]), [0], 'mean', None
                    else:
                        y, idx, h, var = t.predict(*z), [0], 'mean', None
                else:
                    y, idx, h, var = ens(rng, t, z, n, how)
                y = np.asarray(y, dtype=float)
                if m:
                    ev.append({'op': 'count', 'got': list(y.shape), 'want': [m, nA] if full else [m]})
                y = y.reshape(max(m, 1), -1)
                var = None if var is None else np.asarray(var, dtype=float).reshape(max(m, 1), -1)
                for i in range(max(m, 1)):
                    ev.append({'op': 'pred', 'x': ss[i], 'a': -1 if full else aa[i], 'idx': idx, 'how': h, 'y': V(y[i]), 'var': [] if var is None else V(var[i])})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'table seed=%d' % seed}


def ens(rng, t, z, n, how):
    """A prediction of an ensemble: all models, some, or one; the prediction of the ensemble or another; its variance."""
    kw = {}
    r = rng.random()
    idx = list(range(n))
    one = False
    if r < .25:
        idx = [rng.randrange(n)]
        one = True
        kw['idx'] = idx[0]
    elif r < .45:
        idx = rng.sample(range(n), rng.randint(1, n))
        kw['idx'] = idx
    if rng.random() < .4:
        how = rng.choice(HOW)
        kw['prediction'] = how
    if not one and rng.random() < .3:
        y, var = t.predict(*z, compute_variance=True, **kw)
        return y, idx, how, var
    return t.predict(*z, **kw), idx, ('mean' if one else how), None


def run_reg(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    torch.manual_seed(seed)
    ev = []
    app = rng.choice(['lin', 'lin', 'lin', 'cmac', 'cmac', 'torch', 'torch', 'nptorch'])
    kind = rng.choice(['generic', 'q', 'action']) if app not in ('torch', 'nptorch') else rng.choice(['generic', 'q'])
    n = rng.choice([0, 0, 0, 1, 2, 3])               # 0: not an ensemble
    how = rng.choice(HOW)
    d = rng.randint(1, 3)
    nA = rng.randint(2, 3)
    outs = rng.randint(1, 3) if kind == 'generic' else nA if kind == 'q' else 1
    groups = nA if kind == 'action' else 1
    c = {'k': kind, 'phi': 'id', 'cmac': int(app == 'cmac'), 'T': []}
    kw = {}
    if app == 'cmac':
        c['phi'] = 'tiles'
        ts = []
        for _ in range(rng.randint(1, 3)):
            lo = [rng.randint(-20, 4) for _ in range(d)]
            hi = [a + rng.choice([12, 16, 24]) for a in lo]
            m = [rng.randint(1, 3 if d < 3 else 2) for _ in range(d)]
            c['T'].append({'lo': lo, 'hi': hi, 'n': m, 'dims': []})
            ts.append(Tiles([[a / 16, b / 16] for a, b in zip(lo, hi)], m))
        nf = sum(t.size for t in ts)
        kw['tilings'] = ts
    elif app == 'lin' and rng.random() < .4:
        c['phi'] = 'aff'
        nf = d + 1
        kw['phi'] = Features(basis_list=[PolynomialBasis()] + [PolynomialBasis([i], [1]) for i in range(d)])
    else:
        nf = d
    N = max(n, 1)
    zero = lambda: [[[[0] * nf for _ in range(outs)] for _ in range(N)] for _ in range(groups)]
    c['M'] = zero()
    W0 = None
    if app in ('lin', 'cmac') and rng.random() < .3:
        W0 = np.array([rng.randint(-40, 40) / 16 for _ in range(outs * nf)])
        kw['weights'] = W0 if rng.random() < .5 else W0.reshape(outs, nf)
        c['M'] = [[[V(r) for r in W0.reshape(outs, nf)] for _ in range(N)] for _ in range(groups)]
    tor = app in ('torch', 'nptorch')
    x_of = lambda: [rng.randint(-24, 24) / 16 for _ in range(d)]
    with guarded(ev, 60):
        cls = {'lin': LinearApproximator, 'cmac': CMAC, 'torch': TorchApproximator, 'nptorch': NumpyTorchApproximator}[app]
        if tor:
            kw['network'] = Net
        if n:
            kw.update(n_models=n)
            if how != 'mean' or rng.random() < .5:
                kw['prediction'] = how
        ishape = (nf,) if app == 'lin' and c['phi'] == 'aff' else (d,)
        ks = {} if kind == 'generic' else {'n_actions': nA}
        if kind != 'action' or rng.random() < .5:
            ks['output_shape'] = (outs,)
        reg = Regressor(cls, ishape, **ks, **kw)
        models = lambda m: [reg.model] if kind != 'action' and not n else [reg.model[m]] if kind != 'action' else [reg.model[g] if not n else reg.model[g][m] for g in range(groups)]
        arr = (lambda x: torch.as_tensor(x)) if app == 'torch' else (lambda x: x)

        def weights(m):
            return np.concatenate([np.asarray(k.get_weights(), dtype=float) for k in models(m)])

        def setw(m, w):
            if not n:
                ev.append({'op': 'set', 'm': 0, 'w': V(w)})
                w2 = arr(w.copy())
                reg.set_weights(w2)
                keep.append((w2, w.copy()))
            else:
                for g, k in enumerate(models(m)):
                    k.set_weights(arr(w[g * outs * nf:(g + 1) * outs * nf].copy()))
                ev.append({'op': 'set', 'm': m, 'w': V(w)})
        keep = []
        if tor:
            for m in range(N):
                setw(m, np.array([rng.randint(-40, 40) / 16 for _ in range(groups * outs * nf)]))
        for _ in range(rng.randint(4, 12)):
            op = rng.choice(['pred', 'pred', 'pred', 'set', 'get', 'diff', 'fit', 'fit'])
            m = rng.randrange(N)
            if op == 'set':
                setw(m, np.array([rng.randint(-40, 40) / 16 for _ in range(groups * outs * nf)]))
            elif op == 'get':
                if n:
                    ev.append({'op': 'get', 'm': m, 'w': V(weights(m)), 'size': sum(int(k.weights_size) for k in models(m))})
                else:
                    ev.append({'op': 'get', 'm': 0, 'w': V(reg.get_weights()), 'size': int(reg.weights_size)})
            elif op == 'pred':
                k = rng.choice([0, 0, 1, 2, 4])
                X = np.array([x_of() for _ in range(max(k, 1))])
                A = np.array([[rng.randrange(nA)] for _ in range(max(k, 1))])
                full = kind == 'generic' or rng.random() < .5
                Z = [X] if full else [X, A]
                Z = [z[0] for z in Z] if k == 0 else Z
                Z0 = [z.copy() for z in Z]
                if n:
                    if kind == 'action' and full and False:
                        pass
                    Zt = [arr(z) for z in Z]
                    if kind == 'action':
                        kk = {}
                        h = how
                        idx = list(range(n))
                        r = rng.random()
                        if r < .3:
                            idx = [rng.randrange(n)]
                            kk['idx'] = idx[0]
                        elif r < .6:
                            h = rng.choice(HOW)
                            kk['prediction'] = h
                        y, var = reg.predict(*Zt, **kk), None
                        if r < .3:
                            h = 'mean'
                    elif kind == 'q' and not full:
                        # the selection of the action needs a single array: no variance
                        kk = {}
                        h = how
                        idx = list(range(n))
                        if rng.random() < .4:
                            idx = rng.sample(range(n), rng.randint(1, n))
                            kk['idx'] = idx
                        y, var = reg.predict(*Zt, **kk), None
                    elif k == 0:
                        h = how
                        idx = list(range(n))
                        kk = {}
                        if rng.random() < .4:
                            h = rng.choice(HOW)
                            kk['prediction'] = h
                        y, var = reg.predict(*Zt, **kk), None
                    else:
                        y, idx, h, var = ens(rng, reg, Zt, n, how)
                else:
                    y, idx, h, var = reg.predict(*[arr(z) for z in Z]) if rng.random() < .7 else reg(*[arr(z) for z in Z]), [0], 'mean', None
                num = lambda y: np.asarray(y.detach().numpy() if isinstance(y, torch.Tensor) else y, dtype=float)
                y = num(y)
                width = outs if kind != 'action' else nA
                sh = ([width] if full else []) if k == 0 else ([k, width] if full else [k])
                ev.append({'op': 'count', 'got': list(y.shape), 'want': sh})
                ev.append({'op': 'same', 'same': int(all(np.array_equal(a, b) for a, b in zip(Z, Z0)))})
                y = y.reshape(max(k, 1), -1)
                var = None if var is None else num(var).reshape(max(k, 1), -1)
                for i in range(max(k, 1)):
                    ev.append({'op': 'pred', 'x': V(X[i]), 'a': -1 if full else int(A[i, 0]), 'idx': idx, 'how': h, 'y': V(y[i]), 'var': [] if var is None else V(var[i])})
            elif op == 'diff':
                if n:
                    continue
                x = np.array(x_of())
                a = rng.randrange(nA)
                if kind == 'generic':
                    g = reg.diff(arr(x))
                    a = -1
                elif kind == 'action':
                    g = reg.diff(x, np.array([a]))
                elif tor or rng.random() < .5:
                    g = reg.diff(arr(x))
                    a = -1
                else:
                    g = reg.diff(x, np.array([a]))
                g = np.asarray(g.detach().numpy() if isinstance(g, torch.Tensor) else g, dtype=float)
                g = g.reshape(-1, 1) if g.ndim == 1 else g
                ev.append({'op': 'diff', 'x': V(x), 'a': a, 'g': [V(g[:, o]) for o in range(g.shape[1])]})
            elif op == 'fit' and not tor:
                if kind == 'q':
                    continue                       # models with one output per action are fitted by V02
                k = rng.choice([0, 1, 3, 6, 8])
                X = np.array([x_of() for _ in range(max(k, 1))])
                A = np.array([[rng.randrange(nA)] for _ in range(max(k, 1))])
                Y = np.array([[rng.randint(-48, 48) / 16 for _ in range(outs)] for _ in range(max(k, 1))])
                flat = outs == 1 and (kind == 'action' or rng.random() < .5)
                Z = [X] + ([A] if kind == 'action' else []) + [Y.reshape(-1) if flat else Y]
                if k == 0:
                    Z = [np.asarray(z[0]) for z in Z]
                Z0 = [z.copy() for z in Z]
                kk = {}
                idx = []
                if n and rng.random() < .6:
                    idx = [rng.randrange(n)]
                    kk['idx'] = idx[0]
                alpha = 16
                if app == 'cmac' and rng.random() < .6:
                    alpha = rng.randint(2, 16)
                    kk['alpha'] = alpha / 16
                reg.fit(*Z, **kk)
                ev.append({'op': 'fit', 'X': [V(x) for x in X], 'A': [int(a) for a in A[:, 0]], 'Y': [V(y) for y in Y], 'idx': idx, 'alpha': 62500 * alpha, 'w': [V(weights(m)) for m in range(N)]})
                ev.append({'op': 'same', 'same': int(all(np.array_equal(a, b) for a, b in zip(Z, Z0)))})
        ev.append({'op': 'same', 'same': int(all(np.array_equal(np.asarray(a), b) for a, b in keep))})
        ev.append({'op': 'count', 'got': [list(reg.input_shape), list(reg.output_shape)], 'want': [list(ishape), [outs]]})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': '%s %s n=%d seed=%d' % (app, kind, n, seed)}


def check(chk):
    chk.model('MCApprox', 'MCApprox_thorough' if chk.thorough else 'MCApprox')
    n = 4000 if chk.thorough else 400
    chk.validate('TraceApprox', collect(lambda k: run_table(chk.seed * 100151 + k), range(n // 2)))
    chk.validate('TraceApprox', collect(lambda k: run_reg(chk.seed * 100151 + k), range(2 * n)))
