"""R01, R02: bounded FIFO replay memories of n-step transitions.  R03: sequences.  R04: prioritised replay."""
import os
import random
import shutil
import tempfile

import numpy as np
import torch

from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.core.agent import AgentInfo
from mushroom_rl.rl_utils.replay_memory import ReplayMemory, SequenceReplayMemory, PrioritizedReplayMemory, SumTree
from mushroom_rl.rl_utils.spaces import Box

from guard import Hang, from_repo, limit
from lib import NAN, collect, enc, encf, flag

SC = 64
CL = {
    'R01': ['SizeIsBounded', 'InitializedThreshold', 'SamplesAreStored', 'EveryStoredTransitionReachable',
            'RequestedBatchSize', 'UnexpectedException', 'OUTSIDE_SPEC_DOMAIN'],
    'R02': [],
}


def infos(agent_bk, sf, horizon=8):
    sp = Box(-1e6, 1e6, (1,))
    mdp = MDPInfo(sp, Box(-1e6, 1e6, (1,)), 0.5, horizon)
    ag = AgentInfo(is_episodic=False, policy_state_shape=(1,) if sf else None, backend=agent_bk)
    return mdp, ag


class Src:
    """Source of transitions with unique ids, delivered as datasets of any backend."""

    def __init__(self, rng, sf):
        self.rng, self.sf, self.k, self.ep = rng, sf, 0, 0
        self.cur = None

    def nid(self):
        self.k += 1
        return self.k

    def rows(self, T, mode):
        rng, out = self.rng, []
        for _ in range(T):
            s = self.nid() if self.cur is None else self.cur
            self.ep += 1
            ab = int(rng.random() < mode)
            last = int(ab or rng.random() < mode or self.ep >= 8)
            ns = self.nid()
            p = [self.nid(), self.nid()] if self.sf else [-1, -1]
            out.append([s, self.nid(), rng.randint(-4, 6), ns, ab, last] + p)
            self.cur = None if last else ns
            if last:
                self.ep = 0
        return out

    def dataset(self, rows, bk, how):
        arr = lambda c, dt: np.array([[float(r[c])] for r in rows], dtype=dt)
        if how == 'array':
            kw = {}
            if self.sf:
                kw = dict(policy_state=arr(6, float), policy_next_state=arr(7, float))
            d = Dataset.from_array(arr(0, float), arr(1, float), np.array([float(r[2]) for r in rows]), arr(3, float),
                                   np.array([bool(r[4]) for r in rows]), np.array([bool(r[5]) for r in rows]),
                                   backend=bk, gamma=0.5, horizon=8, **kw)
            return d
        from mushroom_rl.core.dataset import DatasetInfo
        dt = torch.float32 if bk == 'torch' else float
        di = DatasetInfo(bk, None, 8, 0.5, (1,), dt, (1,), dt, (1,) if self.sf else None)
        d = Dataset(di, n_steps=len(rows) + self.rng.randint(0, 3))
        a = lambda v: torch.tensor([float(v)]) if bk == 'torch' else np.array([float(v)])
        for r in rows:
            smp = [a(r[0]), a(r[1]), float(r[2]), a(r[3]), bool(r[4]), bool(r[5])]
            if self.sf:
                smp += [a(r[6]), a(r[7])]
            d.append(tuple(smp), {})
        return d


def rows_of(d, sf):
    st, ac, re, ns, ab, la = d.state, d.action, d.reward, d.next_state, d.absorbing, d.last
    ps, nps = (d.policy_state, d.policy_next_state) if sf else ([None] * len(d),) * 2
    return [[enc(st[i]), enc(ac[i]), enc(re[i]), enc(ns[i]), flag(ab[i]), flag(la[i]),
             enc(ps[i]) if sf else -1, enc(nps[i]) if sf else -1] for i in range(len(d))]


def batch_rows(out, sf, bk):
    """Decode a batch: the arrays must be of the agent's backend."""
    kind = torch.Tensor if bk == 'torch' else np.ndarray
    ok = all(isinstance(x, kind) for x in out)
    n = len(out[0])
    st, ac, re, ns, ab, la = out[:6]
    ps, nps = (out[6], out[7]) if sf else ([None] * n,) * 2
    res = []
    for i in range(n):
        res.append([enc(st[i]) if ok else NAN, enc(ac[i]), enc(re[i], SC), enc(ns[i]), flag(ab[i]), flag(la[i]),
                    enc(ps[i]) if sf else -1, enc(nps[i]) if sf else -1])
    return res


def reload(obj, full):
    d = tempfile.mkdtemp(prefix='vrep_')
    try:
        p = os.path.join(d, 'm.msh')
        obj.save(p, full_save=full)
        return type(obj).load(p)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_fifo(seed, prio, nstep, steps):
    rng = random.Random(seed)
    np.random.seed(seed % 2**31)
    torch.manual_seed(seed)
    abk = rng.choice(['numpy', 'torch'])
    sf = rng.random() < 0.35
    mdp, ag = infos(abk, sf)
    cap = rng.randint(2 if prio else 1, 9)
    init = rng.randint(0, cap + 1)
    if prio:
        m = PrioritizedReplayMemory(mdp, ag, init, cap, alpha=1., beta=rng.choice([0., .5, 1.]))
    else:
        m = ReplayMemory(mdp, ag, init, cap)
    src = Src(rng, sf)
    ev = []
    size = 0
    try:
        with limit(60):
            for _ in range(steps):
                op = rng.choice(['add'] * 6 + ['get'] * 3 + ['reset', 'reload'])
                if prio and op == 'reset':
                    op = 'add'
                e = {'op': op}
                if op == 'add':
                    n = rng.randint(1, 4) if nstep else 1
                    gd = rng.choice([1, 2])
                    rows = src.rows(rng.randint(1, rng.choice([1, 4, 10, 20])), rng.choice([0.0, 0.1, 0.4]))
                    bk = rng.choice(['numpy', 'torch', 'list'])
                    d = src.dataset(rows, bk, rng.choice(['array', 'append']))
                    if prio:
                        m.add(d, np.ones(len(rows)), n, 1. / gd)
                    elif n == 1 and rng.random() < 0.5:
                        m.add(d)
                    else:
                        m.add(d, n, 1. / gd)
                    e.update(smps=rows, n=n, gd=gd, intact=int(rows_of(d, sf) == rows))
                    adm = sum(1 for i in range(len(rows) - n + 1) if not any(rows[i + k][5] for k in range(n - 1)))
                    size = min(cap, size + adm)
                elif op == 'get':
                    if size == 0:
                        continue
                    asked = 40 * size + 200
                    got = batch_rows(m.get(asked)[:8 if sf else 6], sf, abk)
                    e.update(asked=asked, n=len(got), got=sorted({tuple(g) for g in got}))
                elif op == 'reset':
                    m.reset()
                    size = 0
                else:
                    full = rng.random() < 0.6
                    m = reload(m, full)
                    e['full'] = int(full)
                    if not full:
                        size = 0
                if prio:
                    e['size'] = size
                else:
                    e['size'] = enc(m.size)
                e['init'] = int(bool(m.initialized))
                ev.append(e)
    except Hang as ex:
        ev.append({'op': 'exc', 'what': str(ex)})
    except Exception as ex:
        if not from_repo(ex):
            raise
        ev.append({'op': 'exc', 'what': '%s: %s' % (type(ex).__name__, ex)})
    ev.append({'op': 'end'})
    return {'cfg': {'max': cap, 'init': init}, 'ev': ev, 'kind': '%s:%s:%s:%d' % ('prio' if prio else 'fifo', abk, 'sf' if sf else 'ml', seed)}


def check_fifo(chk):
    chk.model('MCReplay', 'MCReplay_thorough' if chk.thorough else 'MCReplay')
    n = 3000 if chk.thorough else 600
    traces = collect(lambda k: run_fifo(chk.seed * 100003 + k, k % 4 == 3, chk.prop == 'R02', 14), range(n), 10)
    chk.validate('TraceReplay', traces)


def run_seq(seed, steps):
    rng = random.Random(seed)
    np.random.seed(seed % 2**31)
    torch.manual_seed(seed)
    abk = rng.choice(['numpy', 'torch'])
    sf = rng.random() < 0.6
    mdp, ag = infos(abk, sf)
    cap, trunc = rng.randint(1, 12), rng.randint(1, 5)
    m = SequenceReplayMemory(mdp, ag, 0, cap, trunc)
    src = Src(rng, sf)
    ev, size = [], 0
    try:
        with limit(60):
            for _ in range(steps):
                op = rng.choice(['add'] * 5 + ['get'] * 4 + ['reset'])
                e = {'op': op}
                if op == 'add':
                    rows = src.rows(rng.randint(1, rng.choice([1, 4, 10, 16])), rng.choice([0.0, 0.15, 0.4]))
                    m.add(src.dataset(rows, rng.choice(['numpy', 'torch', 'list']), rng.choice(['array', 'append'])))
                    e['smps'] = rows
                    size = min(cap, size + len(rows))
                elif op == 'reset':
                    if rng.random() < 0.5:
                        continue
                    m.reset()
                    src.cur, src.ep = None, 0
                    size = 0
                else:
                    if size == 0:
                        continue
                    asked = 30 * size
                    out = m.get(asked)
                    if sf:
                        s, a, r, ss, ab, last, ps, nps, pa, lens = out
                    else:
                        s, a, r, ss, ab, last, pa, lens = out
                        ps = nps = None
                    seqs, pad = set(), 1
                    for i in range(asked):
                        L = int(lens[i])
                        rows = []
                        for j in range(min(L, trunc)):
                            rows.append((enc(s[i, j]), enc(a[i, j]), enc(ss[i, j]), enc(ps[i, j]) if sf else -1,
                                         enc(nps[i, j]) if sf else -1, enc(pa[i, j])))
                        for arr in [s, a, ss, pa] + ([ps, nps] if sf else []):
                            if arr.shape[1] != trunc or (L < trunc and float(abs(arr[i, L:]).sum()) != 0):
                                pad = 0
                        seqs.add((tuple(rows), enc(r[i]), flag(ab[i]), flag(last[i])))
                    e.update(pad=pad, asked=len(seqs) if len(s) == asked else -1,
                             seqs=[{'rows': x[0], 'r': x[1], 'ab': x[2], 'last': x[3]} for x in sorted(seqs)])
                e['size'] = enc(m.size)
                ev.append(e)
    except Hang as ex:
        ev.append({'op': 'exc', 'what': str(ex)})
    except Exception as ex:
        if not from_repo(ex):
            raise
        ev.append({'op': 'exc', 'what': '%s: %s' % (type(ex).__name__, ex)})
    if not ev:
        return run_seq(seed + 7919, steps)
    return {'cfg': {'max': cap, 'trunc': trunc}, 'ev': ev, 'kind': 'seq:%s:%s:%d' % (abk, 'sf' if sf else 'ml', seed)}


def check_seq(chk):
    chk.model('MCSeqReplay', 'MCSeqReplay_thorough' if chk.thorough else 'MCSeqReplay')
    n = 3000 if chk.thorough else 600
    chk.validate('TraceSeqReplay', collect(lambda k: run_seq(chk.seed * 100003 + k, 14), range(n), 10))


def run_prio(seed, steps, raw):
    rng = random.Random(seed)
    np.random.seed(seed % 2**31)
    torch.manual_seed(seed)
    abk = rng.choice(['numpy', 'torch'])
    sf = rng.random() < 0.25
    mdp, ag = infos(abk, sf)
    cap = rng.randint(2, 9)
    init = rng.randint(0, cap)
    beta = rng.choice([0, 1, 2])
    alpha = rng.choice([0., 1., 1., 2.])
    eps = 0.5
    m = None
    if raw:
        tree = SumTree(mdp, ag, cap)
    else:
        m = PrioritizedReplayMemory(mdp, ag, init, cap, alpha=alpha, beta=beta / 2., epsilon=eps)
    src = Src(rng, sf)
    ev, size, handles = [], 0, {}
    try:
        with limit(100):
            for _ in range(steps):
                op = rng.choice(['add'] * 4 + ['get'] * 2 + ['big'] + ['update'] * 3 + ['reload'])
                if raw and op in ('big', 'get'):
                    op = 'get'
                e = {'op': op}
                if op == 'add':
                    n, gd = rng.choice([1, 1, 2, 3]), rng.choice([1, 2])
                    rows = src.rows(rng.randint(1, rng.choice([1, 4, 10])), rng.choice([0.0, 0.15, 0.4]))
                    d = src.dataset(rows, rng.choice(['numpy', 'torch', 'list']), rng.choice(['array', 'append']))
                    p = [rng.choice([1, 2, 4, 8, 12, 20]) for _ in rows]
                    if rng.random() < 0.3:
                        p = [p[0]] * len(p)
                    pv = np.array(p) / 4.
                    if raw:
                        tree.add(d, pv, n, 1. / gd)
                    else:
                        m.add(d, pv, n, 1. / gd)
                    e.update(smps=rows, p=p, n=n, gd=gd, intact=int(rows_of(d, sf) == rows))
                    adm = sum(1 for i in range(len(rows) - n + 1) if not any(rows[i + k][5] for k in range(n - 1)))
                    size = min(cap, size + adm)
                    if adm:
                        handles = {}
                elif op in ('get', 'big'):
                    if size == 0:
                        continue
                    e['op'] = 'get'
                    e['big'] = int(op == 'big' or raw)
                    if raw:
                        asked = 600
                        T = float(tree.total_p)
                        items, ws, hs = [], None, []
                        for _k in range(asked):
                            h, p, di = tree.get_ind(np.random.uniform(0, T))
                            hs.append(int(h))
                            items.append(int(di))
                        dd = tree.dataset
                        dec = {}
                        for di in set(items):
                            it = dd[[di]] if False else dd[np.array([di])] if abk == 'numpy' else dd[torch.tensor([di])]
                            o = it.parse()
                            if sf:
                                o = (*o, *it.parse_policy_state())
                            dec[di] = tuple(batch_rows(o, sf, abk)[0])
                        rowsg = [dec[x] for x in items]
                        w = [1000] * asked
                        beta_ = 0
                    else:
                        asked = 1500 if op == 'big' else rng.randint(1, 6)
                        out = m.get(asked)
                        nf = 8 if sf else 6
                        rowsg = [tuple(x) for x in batch_rows(out[:nf], sf, abk)]
                        hs = [int(x) for x in out[nf]]
                        w = [encf(x, 1000) for x in out[nf + 1]]
                    agg, single = {}, 1
                    for r_, h_, w_ in zip(rowsg, hs, w):
                        if r_ in agg:
                            agg[r_][0] += 1
                            if agg[r_][1] != w_:
                                single = 0
                        else:
                            agg[r_] = [1, w_]
                        handles[h_] = r_[0]
                    e.update(asked=asked, n=len(rowsg), single=single,
                             smp=[[list(k), v[0], v[1]] for k, v in sorted(agg.items())])
                elif op == 'update':
                    if not handles:
                        continue
                    hs = rng.sample(sorted(handles), rng.randint(1, len(handles)))
                    if rng.random() < 0.3:
                        hs = hs + [rng.choice(hs)]
                    if raw:
                        p = [rng.choice([1, 2, 4, 8, 12, 20]) for _ in hs]
                        tree.update(np.array(hs), np.array(p) / 4.)
                    else:
                        err = np.array([rng.randint(-4, 4) for _ in hs], dtype=float)
                        m.update(err, np.array(hs))
                        p = [int(round(4 * (abs(x) + eps) ** alpha)) for x in err]
                    e['ups'] = [[handles[h], v] for h, v in zip(hs, p)]
                else:
                    full = rng.random() < 0.7
                    if raw:
                        tree = reload(tree, full)
                    else:
                        m = reload(m, full)
                    e['full'] = int(full)
                    if not full:
                        size, handles = 0, {}
                if raw:
                    e.update(init=int(size > init), maxp=enc(tree.max_p, 4) if size > init else 4, total=enc(tree.total_p, 4),
                             size=enc(tree.size), rawmax=enc(tree.max_p, 4))
                else:
                    e.update(init=int(bool(m.initialized)), maxp=enc(m.max_priority, 4), total=0, size=0, rawmax=0)
                ev.append(e)
    except Hang as ex:
        ev.append({'op': 'exc', 'what': str(ex)})
    except Exception as ex:
        if not from_repo(ex):
            raise
        ev.append({'op': 'exc', 'what': '%s: %s' % (type(ex).__name__, ex)})
    if not ev:
        return run_prio(seed + 7919, steps, raw)
    return {'cfg': {'max': cap, 'init': init, 'beta': 0 if raw else beta, 'raw': int(raw)}, 'ev': ev,
            'kind': 'prio:%s:%s:%s:%d' % ('tree' if raw else 'mem', abk, 'sf' if sf else 'ml', seed)}


def check_prio(chk):
    chk.model('MCSumTree', 'MCSumTree_thorough' if chk.thorough else 'MCSumTree')
    n = 1600 if chk.thorough else 400
    chk.validate('TracePrioritized', collect(lambda k: run_prio(chk.seed * 100003 + k, 16, k % 3 == 2), range(n), 10))
