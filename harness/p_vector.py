"""C04: the vectorized run loop.  C05: environments running in other processes."""
import random

import numpy as np
import torch

from mushroom_rl.core import Agent, Environment, MDPInfo, MultiprocessEnvironment, VectorCore, VectorizedEnvironment
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box

from guard import Hang, from_repo, limit
from lib import NAN, collect, enc, flag
from p_core import Ids, content, make_recorder


def vec(x, n):
    if x is None:
        return [-1] * n
    if len(x) != n:
        return [NAN] * n
    return [enc(v) for v in x]


def vflag(x, n):
    return [flag(v) for v in x] if len(x) == n else [NAN] * n


class VEnv(VectorizedEnvironment):
    def __init__(self, log, ids, n, horizon, backend, pab, rng):
        dt = torch.float32 if backend == 'torch' else float
        sp = lambda: Box(-1e6, 1e6, shape=(1,), data_type=dt)
        super().__init__(MDPInfo(sp(), sp(), 0.5, horizon, backend=backend), n)
        self.log, self.ids, self.n, self.bk, self.pab, self.rng = log, ids, n, backend, pab, rng
        self.x = [0.] * n
        self.noise = rng.random() < 0.4

    def arr(self, v, col=True, dt=float):
        a = np.array(v, dtype=dt)
        if col:
            a = a.reshape(self.n, 1)
        if self.bk == 'torch':
            return torch.tensor(a, dtype=torch.bool if dt is bool else torch.float32)
        return a

    def reset_all(self, env_mask, state=None):
        arg = vec(state, self.n)
        m = vflag(env_mask, self.n)
        for j in range(self.n):
            if m[j] == 1:
                self.x[j] = float(self.ids()) if state is None else float(arg[j])
        self.log({'op': 'reset', 'mask': m, 'arg': [a if b == 1 else -1 for a, b in zip(arg, m)], 'ret': [int(v) for v in self.x]})
        return self.arr(self.x), [{'e': j} for j in range(self.n)]

    def step_all(self, env_mask, action):
        m = vflag(env_mask, self.n)
        r, ab, inf = [0] * self.n, [0] * self.n, [0] * self.n
        for j in range(self.n):
            if m[j] == 1:
                self.x[j] = float(self.ids())
                r[j], ab[j], inf[j] = self.ids() % 7 - 3, int(self.rng.random() < self.pab), self.ids()
        self.log({'op': 'step', 'mask': m, 'a': vec(action, self.n), 'ret': [int(v) for v in self.x], 'r': r, 'ab': ab, 'info': inf})
        if self.noise:       # what an idle environment reports must not matter
            ab = [a if m[j] == 1 else int(self.rng.random() < 0.5) for j, a in enumerate(ab)]
            r = [v if m[j] == 1 else 99 for j, v in enumerate(r)]
        return (self.arr(self.x), self.arr(r, False), self.arr(ab, False, bool),
                [{'k': float(inf[j])} if m[j] == 1 else {} for j in range(self.n)])

    def stop(self):
        self.log({'op': 'estop'})


class VPolicy(Policy):
    def __init__(self, ids, arr, stateful):
        super().__init__((1,) if stateful else None)
        self.ids, self.arr = ids, arr

    def reset(self):
        return None

    def draw_action(self, state, policy_state):
        n = len(state)
        a = self.arr([self.ids() for _ in range(n)])
        return a, (self.arr([self.ids() for _ in range(n)]) if self.is_stateful else None)


class VAgent(Agent):
    def __init__(self, info, log, ids, n, episodic, stateful, backend):
        self.log, self.ids, self.n, self.bk = log, ids, n, backend
        super().__init__(info, VPolicy(ids, self.arr, stateful), is_episodic=episodic, backend=backend)

    def arr(self, v):
        a = np.array(v, dtype=float).reshape(-1, 1)
        return torch.tensor(a, dtype=torch.float32) if self.bk == 'torch' else a

    def episode_start_vectorized(self, initial_states, episode_info, start_mask):
        ps = self.arr([self.ids() for _ in range(self.n)]) if self.policy.is_stateful else None
        th = [self.ids() for _ in range(self.n)]
        self.log({'op': 'epstart', 'mask': vflag(start_mask, self.n), 'ps': vec(ps, self.n), 'th': th})
        return self._convert_to_env_backend(ps), (self.arr(th) if self.info.is_episodic else None)

    def draw_action(self, state, policy_state=None):
        a, nps = super().draw_action(state, policy_state)
        self.log({'op': 'draw', 'x': vec(state, self.n), 'ps': vec(policy_state, self.n), 'a': vec(a, self.n), 'nps': vec(nps, self.n)})
        return a, nps

    def fit(self, dataset):
        smps, infos = content(dataset)
        th = [enc(t) for t in dataset.theta_list] if self.info.is_episodic else []
        self.log({'op': 'fit', 'smps': smps, 'infos': infos, 'th': th})

    def stop(self):
        self.log({'op': 'astop'})


class VPre:
    def __init__(self, m, a):
        self.m, self.a = m, a

    def update(self, x):
        pass

    def __call__(self, x):
        return x * self.m + self.a


class Logger:
    def __init__(self, cap=3000):
        self.ev, self.cap = [], cap

    def __call__(self, e):
        if len(self.ev) > self.cap:
            raise Hang('too many events')
        self.ev.append(e)


def run_vector(seed, make_env=None):
    rng = random.Random(seed)
    n, H = rng.randint(2, 5), rng.randint(1, 6)
    eb, ab = rng.choice(['numpy', 'torch']), rng.choice(['numpy', 'torch'])
    epi, sf = rng.random() < 0.4, rng.random() < 0.4
    K = rng.randint(0, 2)
    pre = rng.choice([(1, 0), (2, 1), (-1, 3)])
    log, ids = Logger(), Ids()
    if make_env:
        eb = 'numpy'
        env = make_env(log, n, H, rng)
    else:
        env = VEnv(log, ids, n, H, eb, rng.choice([0., 0.15, 0.5]), rng)
    agent = VAgent(env.info, log, ids, n, epi, sf, ab)
    if pre != (1, 0):
        agent.add_core_preprocessor(VPre(*pre))

    def cb(s):
        cols = [vec(s[0], n), vec(s[1], n), vec(s[2], n), vec(s[3], n), vflag(s[4], n), vflag(s[5], n), vec(s[6], n), vec(s[7], n)]
        log({'op': 'cb', 'smp': [[c[j] for c in cols] for j in range(n)]})
    mk = lambda k: (lambda d: log({'op': 'cbfit', 'k': k}))
    core = VectorCore(agent, env, callbacks_fit=[mk(k) for k in range(1, K + 1)], callback_step=cb,
                      record_dictionary=dict(recorder_class=make_recorder(log), fps=10))
    try:
        with limit(40):
            for _ in range(rng.randint(1, 4)):
                call = dict(op='call', mode=rng.choice(['learn', 'learn', 'evaluate']), ns=-1, ne=-1, inits=[], spf=-1, epf=-1)
                kw = dict(quiet=True)
                b = rng.choice(['ns', 'ne', 'init'] if call['mode'] == 'evaluate' else ['ns', 'ne'])
                if b == 'ns':
                    call['ns'] = kw['n_steps'] = rng.randint(1, 25)
                elif b == 'ne':
                    call['ne'] = kw['n_episodes'] = rng.randint(1, 9)
                else:
                    call['inits'] = [ids() for _ in range(rng.randint(1, 8))]
                    a = np.array(call['inits'], dtype=float).reshape(-1, 1)
                    kw['initial_states'] = torch.tensor(a, dtype=torch.float32) if eb == 'torch' else a
                if call['mode'] == 'learn':
                    if rng.random() < 0.5 and not epi:
                        call['spf'] = kw['n_steps_per_fit'] = rng.randint(1, 14)
                    else:
                        call['epf'] = kw['n_episodes_per_fit'] = rng.randint(1, 6)
                log(call)
                if call['mode'] == 'learn':
                    core.learn(**kw)
                    log({'op': 'ret', 'smps': [], 'infos': [], 'th': []})
                else:
                    d = core.evaluate(**kw)
                    smps, infos = content(d)
                    log({'op': 'ret', 'smps': smps, 'infos': infos, 'th': [enc(t) for t in d.theta_list] if epi else []})
    except Hang as x:
        log.ev.append({'op': 'exc', 'what': str(x)})
    except Exception as x:
        if not from_repo(x):
            raise
        log.ev.append({'op': 'exc', 'what': '%s: %s' % (type(x).__name__, str(x)[:300])})
    log.ev.append({'op': 'end'})
    return {'cfg': {'n': n, 'H': H, 'K': K, 'P': list(pre), 'epi': int(epi), 'sful': int(sf)}, 'ev': log.ev,
            'kind': 'vector eb=%s ab=%s seed=%d' % (eb, ab, seed)}


def check(chk):
    chk.model('MCVectorCore', 'MCVectorCore_thorough' if chk.thorough else 'MCVectorCore')
    n = 3000 if chk.thorough else 500
    chk.validate('TraceVectorCore', collect(lambda k: run_vector(chk.seed * 100003 + k), range(n)))


# ---------------------------------------------------------------- environments in other processes

class AccEnv(Environment):
    """Its whole history is visible in its state: x = 3 x + a; absorbing when x mod 5 = 0."""

    def __init__(self, horizon=6, off=0):
        super().__init__(MDPInfo(Box(-1e9, 1e9, (2,)), Box(-1e9, 1e9, (1,)), 0.5, horizon))
        self.x, self.t, self.r, self.off = 0, 0, 0, off

    def out(self):
        return np.array([float(self.x), float(self.t)])

    def reset(self, state=None):
        self.r += 1
        if state is None:
            self.x, self.t = 1000 * self.r + self.off, 0
        else:
            self.x, self.t = int(state[0]), int(state[1])
        return self.out(), {'nr': self.r}

    def step(self, action):
        a = int(action[0])
        self.x = (3 * self.x + a) % 100000
        self.t += 1
        return self.out(), float(a - self.t), self.x % 5 == 0, {'q': self.x}

    def render(self, record=False):
        return np.full((2, 2, 3), self.x % 200, dtype=np.uint8) if record else None

    def seed(self, seed):
        self.off = seed

    @staticmethod
    def generate(horizon=6, off=0):
        return AccEnv(horizon, off + 5)

    def stop(self):
        self.t = 0


def run_mp(seed):
    rng = random.Random(seed)
    n = rng.randint(2, 4)
    gen, off = rng.random() < 0.5, rng.randint(0, 9)
    ev = []
    env = None
    try:
        with limit(45):
            if gen:
                env = MultiprocessEnvironment.generate(AccEnv, n_envs=n, off=off)
                off += 5
            else:
                env = MultiprocessEnvironment(AccEnv, 6, n_envs=n, off=off)
            kept = []
            started = [False] * n
            for k in range(rng.randint(6, 24)):
                mask = np.array([rng.random() < 0.6 for _ in range(n)])
                op = rng.choice(['reset', 'step', 'step', 'step', 'step', 'seed', 'stop', 'render', 'default'] if k else ['resetall'])
                if op in ('reset', 'resetall'):
                    if op == 'resetall':
                        mask[:] = True
                    st = None
                    if rng.random() < 0.4:
                        st = np.array([[rng.randint(1, 500), rng.randint(0, 9)] for _ in range(n)], dtype=float)
                    s, inf = env.reset_all(mask, st)
                    e = {'op': 'reset', 'mask': [int(m) for m in mask], 'has': int(st is not None),
                         'arg': [[int(v) for v in row] for row in st] if st is not None else [[0, 0]] * n,
                         's': [[enc(v) for v in row] for row in s], 'nr': [int(i.get('nr', -1)) for i in inf]}
                    kept.append((s, s.copy()))
                elif op == 'step':
                    a = np.array([[rng.randint(-9, 9)] for _ in range(n)], dtype=float)
                    s, r, ab, inf = env.step_all(mask, a)
                    e = {'op': 'step', 'mask': [int(m) for m in mask], 'a': [int(v[0]) for v in a],
                         's': [[enc(v) for v in row] for row in s],
                         'r': [enc(r[j]) if mask[j] else 0 for j in range(n)], 'ab': [flag(v) for v in ab],
                         'q': [int(i.get('q', -1)) for i in inf]}
                    kept.append((s, s.copy()))
                    kept.append((r, r.copy()))
                elif op == 'seed':
                    sd = rng.randint(10, 20)
                    env.seed(sd)
                    e = {'op': 'seed', 'v': sd}
                elif op == 'default':
                    d = rng.randrange(n)
                    env.set_default_env(d)
                    s, inf = env.reset()
                    m = [int(j == d) for j in range(n)]
                    e = {'op': 'reset', 'mask': m, 'has': 0, 'arg': [[0, 0]] * n,
                         's': [[enc(v) for v in row] for row in s], 'nr': [int(i.get('nr', -1)) for i in inf]}
                elif op == 'render':
                    fr = env.render_all(mask, record=True)
                    e = {'op': 'render', 'mask': [int(m) for m in mask], 'f': [int(f.flat[0]) for f in fr]}
                else:
                    env.stop()
                    e = {'op': 'stop'}
                e['stable'] = int(all(np.array_equal(x, y) for x, y in kept))
                e['number'] = int(env.number)
                ev.append(e)
    except Hang as x:
        ev.append({'op': 'exc', 'what': str(x)})
        if env is not None:
            for p in env._processes if hasattr(env, '_processes') else []:
                p.kill()
    except Exception as x:
        if not from_repo(x):
            raise
        ev.append({'op': 'exc', 'what': '%s: %s' % (type(x).__name__, str(x)[:300])})
    if env is not None:
        try:
            with limit(5):
                del env
        except Hang:
            ev.append({'op': 'exc', 'what': 'hang when closing'})
    ev.append({'op': 'end'})
    return {'cfg': {'n': n, 'off': off}, 'ev': ev, 'kind': 'multiprocess seed=%d' % seed}


def check_mp(chk):
    chk.model('MCMultiEnv', 'MCMultiEnv_thorough' if chk.thorough else 'MCMultiEnv')
    n = 400 if chk.thorough else 70
    chk.validate('TraceMultiEnv', collect(lambda k: run_mp(chk.seed * 100003 + k), range(n), 2))
    chk.validate('TraceVectorCore', collect(lambda k: run_vector(chk.seed * 100003 + k, make_mp_env), range(n // 3), 2))


class SeqEnv(Environment):
    """Scripted by its actions: the next state is the action + 100000; absorbing when the action is a multiple of 7."""

    def __init__(self, H):
        super().__init__(MDPInfo(Box(-1e9, 1e9, (1,)), Box(-1e9, 1e9, (1,)), 0.5, H))
        self.k = 0

    def reset(self, state=None):
        self.k += 1
        return (np.array([float(500000 + self.k)]) if state is None else np.array(state, dtype=float)), {}

    def step(self, action):
        a = int(action[0])
        return np.array([float(100000 + a)]), float(a % 5 - 2), a % 7 == 0, {'k': float(200000 + a)}

    def stop(self):
        pass


def make_mp_env(log, n, H, rng):
    class E(MultiprocessEnvironment):
        def reset_all(self, env_mask, state=None):
            m = vflag(env_mask, n)
            arg = vec(state, n)
            s, i = super().reset_all(env_mask, state)
            log({'op': 'reset', 'mask': m, 'arg': [a if b == 1 else -1 for a, b in zip(arg, m)], 'ret': vec(s, n)})
            return s, i

        def step_all(self, env_mask, action):
            m = vflag(env_mask, n)
            s, r, ab, inf = super().step_all(env_mask, action)
            log({'op': 'step', 'mask': m, 'a': vec(action, n), 'ret': vec(s, n), 'r': [enc(r[j]) if m[j] else 0 for j in range(n)],
                 'ab': vflag(ab, n), 'info': [enc(x.get('k', 0)) for x in inf]})
            return s, r, ab, inf

        def stop(self):
            super().stop()
            log({'op': 'estop'})
    return E(SeqEnv, H, n_envs=n)
