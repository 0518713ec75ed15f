"""V02: fits of torch approximators."""
import random

import numpy as np
import torch
import torch.nn.functional as Fn

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import NumpyTorchApproximator, TorchApproximator

from guard import guarded
from lib import collect, encf

E = lambda v: encf(v, 10 ** 6)
V = lambda x: [E(v) for v in np.asarray(x, dtype=float).reshape(-1)]
HOOK = {}


class Net(torch.nn.Module):
    """Linear network that tells which samples it was evaluated on."""
    def __init__(self, input_shape, output_shape, squeeze=False, w0=None, **kwargs):
        super().__init__()
        self.f = torch.nn.Linear(input_shape[-1], output_shape[0], bias=False)
        self.squeeze, self.w0 = squeeze, w0
        HOOK['n'] = HOOK.get('n', 0) + 1
        self.m = HOOK['n']

    def weights_init(self):
        with torch.no_grad():
            self.f.weight.copy_(self.w0)

    def forward(self, x, action=None):
        if HOOK.get('on'):
            HOOK['on'](self.m, x.detach().numpy(), self.training)
        y = self.f(x.float())
        if action is not None:
            return y.gather(1, action.long()).squeeze(1)
        return y.squeeze(1) if self.squeeze else y


def loss2(y_hat, y1, y2, reduction='mean'):
    return Fn.mse_loss(y_hat, y1, reduction=reduction) + Fn.mse_loss(y_hat, y2, reduction=reduction)


def run_fit(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    torch.manual_seed(seed)
    HOOK.clear()
    ev = []
    q = rng.random() < .4
    d = rng.randint(1, 3)
    outs = rng.randint(2, 3) if q else rng.choice([1, 1, 2, 3])
    n = rng.choice([0, 0, 0, 2, 3])
    N = max(n, 1)
    squeeze = not q and outs == 1 and rng.random() < .7
    re, drop, nt = rng.random() < .2, rng.random() < .3, 1 if q else rng.choice([1, 1, 1, 2])
    lr = rng.choice([1, 2, 4])
    bs = rng.choice([0, 0, 1, 2, 3, 4, 16])
    grid = lambda k: [rng.randint(-16, 16) / 16 for _ in range(k)]
    W = [np.array([grid(d) for _ in range(outs)]) for _ in range(N)]
    w0 = np.array([grid(d) for _ in range(outs)])
    enc = lambda w: [V(r) for r in np.asarray(w, dtype=float).reshape(outs, d)]
    c = {'q': int(q), 'lr': lr * 31250, 'bs': bs, 're': int(re), 'drop': int(drop), 'w0': enc(w0), 'w': [enc(w) for w in W]}
    with guarded(ev, 60):
        cls = rng.choice([TorchApproximator, TorchApproximator, NumpyTorchApproximator])
        if n:
            cls = TorchApproximator
        kw = dict(network=Net, optimizer={'class': torch.optim.SGD, 'params': {'lr': lr / 32}}, loss=Fn.mse_loss if nt == 1 else loss2, squeeze=squeeze, w0=torch.as_tensor(w0).float())
        for k, v, dv in (('batch_size', bs, 0), ('reinitialize', re, False), ('dropout', drop, False), ('n_fit_targets', nt, 1)):
            if v != dv or rng.random() < .3:
                kw[k] = v
        if n:
            kw['n_models'] = n
        direct = not n and not q and rng.random() < .3
        reg = cls((d,), (outs,), **kw) if direct else Regressor(cls, (d,), output_shape=(outs,), **({'n_actions': outs} if q else {}), **kw)
        ms = [reg] if direct else [reg.model] if not n else list(reg.model)

        def num(t):
            return t.detach().numpy() if isinstance(t, torch.Tensor) else np.asarray(t)
        for m, a in enumerate(ms):
            w = W[m].reshape(-1)
            a.set_weights(w if cls is NumpyTorchApproximator else torch.as_tensor(w).float())
            ev.append({'op': 'fixed', 'm': m + 1, 'w': enc(num(a.get_weights())), 'tr': int(a.network.training)})
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .25:
                m = rng.randrange(N)
                w = np.array(grid(outs * d))
                ms[m].set_weights(w if cls is NumpyTorchApproximator else torch.as_tensor(w).float())
                ev.append({'op': 'set', 'm': m + 1, 'w': enc(w)})
                ev.append({'op': 'fixed', 'm': m + 1, 'w': enc(num(ms[m].get_weights())), 'tr': int(ms[m].network.training)})
            S = rng.choice([1, 2, 4, 5, 7, 8]) if bs else rng.choice([1, 2, 5, 8])
            rows = set()
            while len(rows) < S:
                rows.add(tuple(rng.randint(-20, 20) / 16 for _ in range(d)))
            X = np.array(sorted(rows, key=lambda r: rng.random()))
            A = np.array([[rng.randrange(outs)] for _ in range(S)])
            k = 1 if q else outs
            Y = [np.array([[rng.randint(-32, 32) / 16 for _ in range(k)] for _ in range(S)]) for _ in range(nt)]
            wt = np.array([rng.randint(2, 32) / 16 for _ in range(S)]) if (q or squeeze) and rng.random() < .4 else None
            key = {tuple(np.float32(r)): i + 1 for i, r in enumerate(X)}
            flat = q or squeeze
            args = [X] + ([A] if q else []) + [y.reshape(-1) if flat else y for y in Y]
            kf = {}
            ne, eps, pat, split = 1, -1, 1, 1.
            if rng.random() < .6:
                ne = rng.choice([1, 2, 3, 5])
                kf['n_epochs'] = ne
            if rng.random() < .5:
                eps = rng.choice([10000, 50000, 200000, 500000])
                kf['epsilon'] = eps / 1e6
                if 'n_epochs' not in kf and eps > 10000:
                    ne = -1
                elif 'n_epochs' not in kf:
                    ne = kf['n_epochs'] = 6
                if rng.random() < .6:
                    pat = rng.choice([1, 2, 3])
                    kf['patience'] = pat
            if rng.random() < .5:
                split = rng.choice([.5, .75, .3, 1.])
                kf['validation_split'] = split
            ntr = -(-(S * int(round(split * 100))) // 100)
            if wt is not None:
                kf['weights'] = wt
            fit = list(range(N))
            if n and rng.random() < .6:
                fit = [rng.randrange(n)]
                kf['idx'] = fit[0]
            ev.append({'op': 'begin', 'X': [V(x) for x in X], 'A': [int(a) for a in A[:, 0]], 'Y': [[V(r) for r in y] for y in Y], 'wt': [] if wt is None else V(wt),
                       'nt': ntr, 'ne': ne, 'eps': eps, 'pat': pat, 'ms': [m + 1 for m in fit]})
            A0 = [a.copy() for a in args] + ([wt.copy()] if wt is not None else [])

            def on(m, x, training):
                ev.append({'op': 'fwd', 'm': m, 'ids': [key.get(tuple(np.float32(r)), 0) for r in x], 'tr': int(training)})
                if len(ev) > 2500:
                    raise RuntimeError('the fit does not stop')
            HOOK['on'] = on
            reg.fit(*args, **kf)
            HOOK['on'] = None
            ev.append({'op': 'same', 'same': int(all(np.array_equal(a, b) for a, b in zip(args + ([wt] if wt is not None else []), A0)))})
            ev.append({'op': 'end', 'w': [enc(num(a.get_weights())) for a in ms], 'loss': [E(-1 if a.loss_fit is None else float(a.loss_fit)) for a in ms], 'tr': int(any(a.network.training for a in ms))})
    ev.append({'op': 'stop'})
    HOOK.clear()
    return {'cfg': c, 'ev': ev, 'kind': 'fit seed=%d' % seed}


def check(chk):
    chk.model('MCTorchFit', 'MCTorchFit_thorough' if chk.thorough else 'MCTorchFit')
    n = 5000 if chk.thorough else 500
    chk.validate('TraceTorchFit', collect(lambda k: run_fit(chk.seed * 100151 + k), range(n)))
