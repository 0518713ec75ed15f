"""N01: running statistics and preprocessors."""
import os
import random
import shutil
import tempfile

import numpy as np
import torch

from mushroom_rl.core import MDPInfo, Serializable
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.running_stats import RunningAveragedWindow, RunningExpWeightedAverage, RunningStandardization
from mushroom_rl.rl_utils.spaces import Box

from guard import guarded
from lib import collect, encf

E = lambda v: encf(v, 10 ** 6)


def V(x):
    if hasattr(x, 'detach'):
        x = x.detach().numpy()
    return [E(v) for v in np.asarray(x, dtype=float).reshape(-1)]


def reload(o):
    d = tempfile.mkdtemp()
    try:
        o.save(os.path.join(d, 'o.msh'))
        return Serializable.load(os.path.join(d, 'o.msh'))
    finally:
        shutil.rmtree(d)


def run(seed):
    rng = random.Random(seed)
    b = rng.choice(['numpy', 'torch'])
    k = rng.choice(['std', 'exp', 'win', 'pre', 'minmax', 'minmax'])
    d = rng.randint(1, 4)
    arr = (lambda x: np.array(x, dtype=float)) if b == 'numpy' else (lambda x: torch.tensor(x, dtype=torch.float32))
    val = lambda: [rng.randint(-48, 48) / 16 for _ in range(d)]
    c = {'k': k, 'd': d, 'alpha': rng.choice([0, 0, 100, 300]), 'w': rng.randint(1, 4), 'init': [], 'clip': E(rng.choice([.5, 2, 10])), 'fin': [0] * d, 'lo': [0] * d, 'hi': [0] * d}
    init = val() if rng.random() < .5 else None
    if init is not None and k in ('exp', 'win'):
        c['init'] = V(init)
    al = c['alpha'] / 1000 or 1e-32
    if k == 'exp':
        c['alpha'] = c['alpha'] or 500
    ev = []
    with guarded(ev, 30):
        ini = None if init is None else arr(init)
        if k == 'std':
            o = RunningStandardization((d,), b, alpha=al)
        elif k == 'exp':
            o = RunningExpWeightedAverage((d,), c['alpha'] / 1000, b, init_value=ini)
        elif k == 'win':
            o = RunningAveragedWindow((d,), c['w'], b, init_value=ini)
        else:
            low, high = [-np.inf] * d, [np.inf] * d
            fin = [int(rng.random() < .6) for _ in range(d)]
            if not any(fin):
                fin[rng.randrange(d)] = 1
            if k == 'pre':
                fin = [0] * d
            for i in range(d):
                if fin[i]:
                    low[i] = rng.randint(-16, 8) / 4
                    high[i] = low[i] + rng.randint(1, 16) / 4
                elif rng.random() < .3:      # bounded on one side only: not limited
                    low[i] = -1.
            c['fin'] = fin
            c['lo'], c['hi'] = [E(low[i]) if fin[i] else 0 for i in range(d)], [E(high[i]) if fin[i] else 0 for i in range(d)]
            dt = float if b == 'numpy' else np.float32      # bounds in the type of the observations
            info = MDPInfo(Box(np.array(low, dtype=dt), np.array(high, dtype=dt)), Box(np.array([-1.]), np.array([1.])), .9, 10)
            l0, h0 = info.observation_space.low.copy(), info.observation_space.high.copy()
            o = (StandardizationPreprocessor if k == 'pre' else MinMaxPreprocessor)(info, b, clip_obs=c['clip'] / 10 ** 6, alpha=al)
        pre = k in ('pre', 'minmax')
        for _ in range(rng.randint(2, 12)):
            q = rng.random()
            if q < .5:
                B = [val() for _ in range(rng.randint(1, 4) if rng.random() < (.1 if k in ('std', 'pre', 'minmax') else .4) else 1)]
                x = arr(B if len(B) > 1 or rng.random() < .5 else B[0])
                x0 = V(x)
                (o.update if pre else o.update_stats)(x)
                ev.append({'op': 'upd', 'B': [V(v) for v in B], 'same': int(V(x) == x0)})
            elif q < .6:
                o = reload(o)
            elif q < .68 and not pre:
                i2 = val() if rng.random() < .5 and k in ('exp', 'win') else None
                if k in ('exp', 'win'):
                    o.reset(None if i2 is None else arr(i2))
                else:
                    o.reset()
                ev.append({'op': 'reset', 'init': [] if i2 is None else V(i2)})
            if pre:
                v = val()
                x = arr(v)
                out = o(x)
                ev.append({'op': 'pre', 'o': V(v), 'x': V(out), 'same': int(V(x) == V(v))})
            else:
                ev.append({'op': 'mean', 'x': V(o.mean)})
                if k == 'std':
                    ev.append({'op': 'std', 'x': V(o.std)})
        if pre and not (np.array_equal(l0, info.observation_space.low) and np.array_equal(h0, info.observation_space.high)):
            ev.append({'op': 'pre', 'o': [0] * d, 'x': [], 'same': 0})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': '%s %s seed=%d' % (k, b, seed)}


def check(chk):
    chk.model('MCStats', 'MCStats_thorough' if chk.thorough else 'MCStats')
    n = 8000 if chk.thorough else 800
    chk.validate('TraceStats', collect(lambda k: run(chk.seed * 100129 + k), range(n)))
