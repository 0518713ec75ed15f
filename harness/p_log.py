"""L01: loggers, collecting callbacks, data buffers and video recordings."""
import contextlib
import io
import logging
import os
import pickle
import random
import re
import shutil
import tempfile

import numpy as np

from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.table import Table
from mushroom_rl.core import DatasetInfo, Dataset, Logger, Serializable, VectorizedDataset
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.utils.callbacks import CollectDataset, CollectMaxQ, CollectParameters, CollectQ
from mushroom_rl.utils.plots.databuffer import DataBuffer

from guard import guarded

LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
LINE = re.compile(r'^\d\d/\d\d/\d{4} \d\d:\d\d:\d\d \[(\w+)\] (.*)$')


class Thing(Serializable):
    def __init__(self, i):
        self.i, self.big = i, i
        self._add_save_attr(i='primitive', big='primitive!')

    def text(self):
        return '%s/%s' % (self.i, 'full' if self.big is not None else 'part')


def num(v):
    v = float(v)
    return str(int(v)) if v == int(v) else repr(v)


def lines(text):
    out = []
    for x in text.splitlines():
        m = LINE.match(x)
        out.append('%s|%s' % m.groups() if m else '?|' + x)
    return out


def listing(base):
    out = []
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, base)
            if f.endswith('.npy'):
                c = [num(v) for v in np.load(p).reshape(-1)]
            elif f.endswith('.msh'):
                c = [Thing.load(p).text()]
            elif f.endswith('.pkl'):
                with open(p, 'rb') as g:
                    c = [num(v) for v in np.asarray(pickle.load(g).reward)]
            elif f.endswith('.log'):
                c = lines(open(p).read())
            else:
                c = []
            out.append([rel, c])
    return out


def mk_dataset(rng, vec=False, tag=0):
    """A dataset (or a vectorized one) and its content [[reward, last], ...] in flattened order."""
    info = DatasetInfo('numpy', None, None, .9, (1,), float, (1,), float, None)
    if vec:
        ne, n = 2, rng.randint(1, 3)
        ds = VectorizedDataset(DatasetInfo('numpy', None, None, .9, (1,), float, (1,), float, None, n_envs=2), n_steps=n * ne)
        rows = [[], []]
        for t in range(n):
            r = [rng.randint(-50, 50) for _ in range(ne)]
            l = [rng.random() < .3 or t == n - 1 for _ in range(ne)]
            z = np.zeros((ne, 1))
            ds.append_vectorized([z, z, np.array(r, dtype=float), z, np.array([False] * ne), np.array(l)], {}, mask=np.array([True] * ne))
            for i in range(ne):
                rows[i].append([r[i], int(l[i])])
        return ds, rows[0] + rows[1]
    n = rng.randint(1, 4)
    ds = Dataset(info, n_steps=n)
    rows = []
    for t in range(n):
        r, l = rng.randint(-50, 50), rng.random() < .4
        ds.append([np.zeros(1), np.zeros(1), float(r), np.zeros(1), False, l], {})
        rows.append([r, int(l)])
    return ds, rows


def rows_of(ds):
    if ds is None:
        return []
    return [[int(r), int(l)] for r, l in zip(ds.reward, ds.last)]


def run_log(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    base = tempfile.mkdtemp(prefix='vlog_')
    ev, ls, ids = [], [], []
    try:
        with guarded(ev, 60):
            for _ in range(rng.randint(4, 16)):
                out = io.StringIO()
                q = rng.random()
                with contextlib.redirect_stdout(out):
                    if not ls or q < .22:
                        con = int(rng.random() < .3)
                        d = 'c%d_%d' % (seed, len(ls)) if con else rng.choice(['x', 'y'])
                        sd = rng.choice([None, None, 1, 2, 11, 12, 21])
                        ap = int(rng.random() < .5)
                        e = {'op': 'open', 'd': d, 'seed': -1 if sd is None else sd, 'append': ap, 'con': con,
                             'cl': 10 * rng.randint(1, 5), 'fl': 10 * rng.randint(1, 5)}
                        ls.append(Logger(d, results_dir=base, log_console=bool(con), append=bool(ap), seed=sd,
                                         console_log_level=e['cl'], file_log_level=e['fl']))
                        ids.append((e['d'], e['seed']))
                        if str(ls[-1].path) != os.path.join(base, d):
                            e['d'] = 'PATH'
                    else:
                        k = rng.randrange(len(ls))
                        l = ls[k]
                        e = {'l': k + 1}
                        if q < .55:
                            names = rng.sample(['J', 'R', 'best-3', 'loss_1'], rng.randint(1, 3))
                            v = {n: rng.choice([rng.randint(-99, 99), rng.randint(-8, 8) / 4]) for n in names}
                            l.log_numpy(**v)
                            e.update(op='values', v=[[n, num(v[n])] for n in names])
                        elif q < .6:
                            x = [rng.randint(-9, 9) for _ in range(rng.randint(1, 4))]
                            l.log_numpy_array(w=np.array(x))
                            e.update(op='array', n='w', x=[num(v) for v in x])
                        elif q < .7:
                            t, ep, full = Thing(rng.randint(0, 999)), rng.choice([None, 0, 3, 12]), rng.random() < .5
                            l.log_agent(t, epoch=ep, full_save=full)
                            e.update(op='agent', ep=-1 if ep is None else ep, x=['%d/%s' % (t.i, 'full' if full else 'part')])
                        elif q < .8:
                            t, J, full = Thing(rng.randint(0, 999)), rng.choice(range(-999 + len(ev), 999, 40)), rng.random() < .5
                            l.log_best_agent(t, J / 8, full_save=full)
                            e.update(op='best', J=J, x=['%d/%s' % (t.i, 'full' if full else 'part')])
                        elif q < .85:
                            ds, rows = mk_dataset(rng)
                            l.log_dataset(ds)
                            e.update(op='dataset', x=[num(r[0]) for r in rows])
                        elif [x.get('d') for x in ev if x['op'] == 'open' and (x['d'], x['seed']) == ids[k]].__len__() > 1:
                            continue      # the console of loggers with the same name is shared
                        else:
                            lv, m = rng.choice(LEVELS), 'text %d' % rng.randint(0, 999)
                            z = rng.random()
                            if z < .2:
                                lv = 'INFO'
                                l.epoch_info(7, J=m, R=rng.choice([1]))
                                m = 'Epoch 7 | J: %s R: 1' % m
                            else:
                                getattr(l, lv.lower())(m)
                            e.update(op='say', lv=lv, m=m)
                e['out'] = lines(out.getvalue())
                e['files'] = listing(base)
                ev.append(e)
    finally:
        for l in ls:
            for h in list(logging.getLogger(l._log_id).handlers) if hasattr(l, '_log_id') else []:
                h.close()
        shutil.rmtree(base)
    ev.append({'op': 'end'})
    return {'cfg': {'k': 'log', 'len': -1, 'name': ''}, 'ev': ev, 'kind': 'logger seed=%d' % seed}


def run_collect(seed):
    rng = random.Random(seed)
    k = rng.choice(['dataset', 'dataset', 'q', 'maxq', 'param', 'buffer'])
    c = {'k': k, 'len': rng.choice([-1, 1, 2, 3, 5]), 'name': ''}
    ev, kept = [], []
    d = tempfile.mkdtemp(prefix='vcol_')
    try:
        with guarded(ev, 30):
            I = lambda x: [int(v) for v in np.asarray(x).reshape(-1)]
            if k == 'dataset':
                o = CollectDataset()
            elif k in ('q', 'maxq'):
                shape = (rng.randint(2, 3), rng.randint(2, 3))
                ens = rng.random() < .5
                t = EnsembleTable(2, shape) if ens else Table(shape)
                ms = list(t.model) if ens else [t]
                st = np.array([rng.randrange(shape[0])])
                o = CollectQ(t) if k == 'q' else CollectMaxQ(t, st)
            elif k == 'param':
                par = rng.choice([Parameter(4.), LinearParameter(10., 2., 8, size=(3,)), DecayParameter(8., exp=1., size=(3,))])
                i = rng.randrange(3)
                o = CollectParameters(par, np.array([i]))
                count = 0
            else:
                o = DataBuffer('b', None if c['len'] < 0 else c['len'])
            for _ in range(rng.randint(2, 12)):
                q = rng.random()
                if q < .6:
                    if k == 'dataset':
                        ds, rows = mk_dataset(rng, rng.random() < .3)
                        o(ds)
                        ev.append({'op': 'collect', 'x': rows})
                        ds.clear()
                    elif k in ('q', 'maxq'):
                        for m in ms:
                            for _ in range(rng.randint(0, 3)):
                                m.table[rng.randrange(shape[0]), rng.randrange(shape[1])] = 2 * rng.randint(-20, 20)
                        o(None)
                        mean = np.mean([m.table for m in ms], 0)
                        ev.append({'op': 'collect', 'x': I(mean if k == 'q' else mean[st[0]])})
                    elif k == 'param':
                        for _ in range(rng.randint(0, 2)):
                            par.update(np.array([rng.randrange(3)]))
                        v = par.get_value(np.array([i]))
                        o(None)
                        ev.append({'op': 'collect', 'x': [int(round(float(v) * 10 ** 6))]})
                    else:
                        x = [rng.randint(-9, 9) for _ in range(rng.randint(0, 3))]
                        o.update(x)
                        ev.append({'op': 'collect', 'x': [[v] for v in x]})
                elif q < .7:
                    if k == 'buffer':
                        o.reset()
                    else:
                        o.clean()
                    ev.append({'op': 'clean'})
                    kept = []
                elif q < .8 and k == 'buffer':
                    if rng.random() < .5:
                        on = rng.randint(0, 1)
                        o.enable_tracking(bool(on))
                        ev.append({'op': 'track', 'on': on})
                    else:
                        o.save(d)
                        o = DataBuffer.load(d + '/b')
                g = o.get()
                if k == 'dataset':
                    x = rows_of(g)
                elif k == 'buffer':
                    x = [[int(v)] for v in g]
                    ev.append({'op': 'size', 'x': int(o.size)})
                elif k == 'param':
                    x = [[int(round(float(np.asarray(v).reshape(-1)[0]) * 10 ** 6))] for v in g]
                else:
                    x = [I(v) for v in g]
                ev.append({'op': 'get', 'x': x})
                for a, b in kept:
                    ev.append({'op': 'kept', 'x': rows_of(a) if k == 'dataset' else [I(v) for v in a], 'y': b})
                if k == 'dataset' and g is not None:
                    kept = [(g, x)]
                elif k in ('q', 'maxq'):
                    kept = [(list(g), x)]
    finally:
        shutil.rmtree(d)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'collect %s seed=%d' % (k, seed)}


def run_video(seed):
    import cv2
    from mushroom_rl.utils.record import VideoRecorder
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix='vvid_')
    name = rng.choice(['recording', 'v'])
    ev = []
    try:
        with guarded(ev, 60):
            o = VideoRecorder(d, tag='t', fps=rng.choice([10, 30]), **({} if name == 'recording' and rng.random() < .5 else {'video_name': name}))
            for _ in range(rng.randint(1, 3)):
                h, w = rng.choice([(48, 64), (64, 64), (64, 48)])
                for _ in range(rng.randint(1, 5)):
                    x = [rng.choice([20, 120, 220]) for _ in range(3)]
                    o(np.tile(np.array(x, dtype=np.uint8), (h, w, 1)))
                    ev.append({'op': 'frame', 'x': x})
                o.stop()
                files = []
                for f in sorted(os.listdir(os.path.join(d, 't'))):
                    cap, fr = cv2.VideoCapture(os.path.join(d, 't', f)), []
                    while True:
                        ok, y = cap.read()
                        if not ok:
                            break
                        fr.append([int(v) for v in y.mean(axis=(0, 1))[::-1]])
                    cap.release()
                    files.append([f, fr])
                ev.append({'op': 'stop', 'files': files})
    finally:
        shutil.rmtree(d)
    ev.append({'op': 'end'})
    return {'cfg': {'k': 'video', 'len': -1, 'name': name}, 'ev': ev, 'kind': 'video seed=%d' % seed}


def run(seed):
    return [run_log, run_log, run_collect, run_collect, run_collect, run_video][seed % 6](seed)


def check(chk):
    from lib import collect
    chk.model('MCLog', 'MCLog_thorough' if chk.thorough else 'MCLog')
    n = 20000 if chk.thorough else 2500
    chk.validate('TraceLog', collect(lambda k: run(chk.seed * 100043 + k), range(n)))
