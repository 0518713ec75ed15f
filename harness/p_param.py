"""P01: parameters and schedules."""
import os
import random
import shutil
import tempfile

import numpy as np

from mushroom_rl.core.serialization import Serializable
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter, to_parameter
from mushroom_rl.rl_utils.variance_parameters import (VarianceDecreasingParameter, VarianceIncreasingParameter,
                                                      WindowedVarianceIncreasingParameter)

from guard import guarded
from lib import collect, enc, encf

VS = 4096


def run(seed):
    rng = random.Random(seed)
    k = ['const', 'linear', 'decay', 'varinc', 'vardec', 'winvar'][seed % 6]
    size = rng.choice([(1,), (3,), (2, 2), (4, 1)])
    m = int(np.prod(size))
    c = {'k': k, 'a': rng.choice([4, 8, 16, 32]), 'b': rng.choice([0, 8, 16, 40]), 'n': rng.randint(1, 6), 'e': rng.choice([0, 1, 1, 2]),
         'lo': -1000, 'hi': -1000, 't': rng.randint(1, 3), 'w': rng.randint(2, 4), 'm': m}
    if k in ('varinc', 'vardec', 'winvar'):
        c['a'] = rng.choice([4, 8, 16])
        if rng.random() < 0.3:
            c['lo'] = rng.choice([1, 4])
    elif k != 'linear':
        if rng.random() < 0.4:
            c['lo'] = rng.choice([0, 2, 4])
        if rng.random() < 0.4:
            c['hi'] = rng.choice([6, 12, 40])
    lo, hi = (None if c[x] == -1000 else c[x] / 16 for x in ('lo', 'hi'))
    ev = []
    with guarded(ev, 20):
        if k == 'const':
            p = Parameter(c['a'] / 16, lo, hi, size=size)
            if rng.random() < 0.2 and lo is None and hi is None:
                p = to_parameter(c['a'] / 16)
                c['m'] = m = 1
                size = (1,)
            p = to_parameter(p)
        elif k == 'linear':
            p = LinearParameter(c['a'] / 16, c['b'] / 16, c['n'], size=size)
        elif k == 'decay':
            p = DecayParameter(c['a'] / 16, exp={0: 0.5, 1: 1., 2: 2.}[c['e']], min_value=lo, max_value=hi, size=size)
        elif k == 'varinc':
            p = VarianceIncreasingParameter(c['a'] / 16, min_value=lo, tol=float(c['t']), size=size)
        elif k == 'vardec':
            p = VarianceDecreasingParameter(c['a'] / 16, min_value=lo, tol=float(c['t']), size=size)
        else:
            p = WindowedVarianceIncreasingParameter(c['a'] / 16, min_value=lo, tol=float(c['t']), window=c['w'], size=size)
        var = k in ('varinc', 'vardec', 'winvar')
        for _ in range(rng.randint(4, 26)):
            i = rng.randrange(m)
            ix = np.unravel_index(i, size)
            if m == 1:
                idx = rng.choice([(), (np.array([2]),), (np.array([1]), np.array([3]))]) if size == (1,) else ()
                idx = () if var and rng.random() < 0.5 else idx
            else:
                idx = tuple(np.array([int(v)]) for v in ix) if rng.random() < 0.5 else tuple(int(v) for v in ix)
            kw = {}
            e = {'i': i + 1, 'x': 0, 'f': 4}
            if var:
                e['x'] = rng.randint(-3, 3)
                kw['target'] = float(e['x'])
                if rng.random() < 0.4:
                    e['f'] = rng.choice([1, 2, 4])
                    kw['factor'] = e['f'] / 4
            o = rng.random()
            if o < 0.6:
                v = p(*idx, **kw)
                ev.append(dict(e, op='call', v=encf(v, VS)))
            elif o < 0.75 and (m > 1 or not var):
                p.update(*(idx if m > 1 else ()), **kw)
                ev.append(dict(e, op='upd'))
            elif o < 0.93:
                ev.append(dict(e, op='get', v=encf(p.get_value(*idx), VS)))
            elif o < 0.96:
                ev.append({'op': 'meta', 'init': enc(p.initial_value, 16), 'size': int(np.prod(p.shape))})
            else:
                d = tempfile.mkdtemp(prefix='vpar_')
                try:
                    p.save(d + '/p.msh')
                    p = Serializable.load(d + '/p.msh') if rng.random() < 0.7 else p.copy()
                finally:
                    shutil.rmtree(d, ignore_errors=True)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'param %s seed=%d' % (k, seed)}


def check(chk):
    chk.model('MCParam', 'MCParam_thorough' if chk.thorough else 'MCParam')
    n = 6000 if chk.thorough else 900
    chk.validate('TraceParam', collect(lambda k: run(chk.seed * 100008 + k), range(n)))
