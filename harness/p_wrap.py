"""W01: environments that wrap gym, Atari and dm_control simulators; the registry of environments."""
import collections
import random
import warnings

import numpy as np

warnings.filterwarnings('ignore')
import gym
from gym import spaces

from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.environments.atari import Atari
from mushroom_rl.environments.gym_env import Gym
from mushroom_rl.rl_utils.spaces import Box, Discrete

from guard import guarded
from lib import collect

NOOBS = []


class Sim:
    """What the simulator was asked and what it answered."""
    rng = None
    log = []
    opt = {}

    @classmethod
    def add(cls, c, a=(), o=(), r=0, d=0, l=0):
        cls.log.append({'c': c, 'a': [int(x) for x in a], 'o': list(o), 'r': int(r), 'd': int(d), 'l': int(l)})

    @classmethod
    def take(cls):
        x, cls.log = cls.log, []
        return x


class FakeGym(gym.Env):
    metadata = {'render_modes': []}

    def __init__(self, **k):
        o = Sim.opt
        self.observation_space = spaces.Discrete(40) if o['dobs'] else spaces.Box(np.array(o['olow'], dtype=np.float32), np.array(o['ohigh'], dtype=np.float32))
        self.action_space = spaces.Discrete(o['na']) if o['disc'] else spaces.Box(np.array(o['alow'], dtype=np.float32), np.array(o['ahigh'], dtype=np.float32))
        if o['dt']:
            self.dt = o['dt']
        self.state = None
        self.args = k

    def _obs(self):
        if Sim.opt['dobs']:
            x = Sim.rng.randrange(40)
            return x, [x]
        x = [Sim.rng.randint(-9, 9) for _ in Sim.opt['olow']]
        return np.array(x, dtype=np.float32), x

    def reset(self, **k):
        o, x = self._obs()
        self.state = o
        Sim.add('reset', o=x)
        return o

    def step(self, a):
        o, x = self._obs()
        r, d, i = Sim.rng.randint(-9, 9), Sim.rng.random() < .2, Sim.rng.randint(0, 9)
        self.state = o
        Sim.add('step', np.atleast_1d(a), x, r, d, i)
        return o, float(r), d, {'k': i}

    def close(self):
        Sim.add('close')

    def seed(self, seed=None):
        Sim.add('seed', [seed])


class Doubler(gym.Wrapper):
    def __init__(self, env, k=1, j=0):
        super().__init__(env)
        self.kj = (k, j)


class Ale:
    n = 0

    def lives(self):
        return self.n


class FakeAtari(gym.Env):
    metadata = {'render_modes': []}

    def __init__(self, **k):
        self.observation_space = spaces.Box(0, 255, (8, 8, 3), np.uint8)
        self.action_space = spaces.Discrete(Sim.opt['na'])
        self.ale = Ale()
        self.ale.n = Sim.opt['lives']

    def get_action_meanings(self):
        return ['NOOP', 'FIRE' if Sim.opt['fire'] else 'UP'] + ['A%d' % i for i in range(2, Sim.opt['na'])]

    def _frame(self):
        x = [Sim.rng.randint(0, 127) * 2 for _ in range(2)]
        f = np.zeros((8, 8, 3), np.uint8)
        f[:, :4], f[:, 4:] = x[0], x[1]
        return f, x

    def reset(self, **k):
        self.ale.n = Sim.opt['lives']
        f, x = self._frame()
        Sim.add('reset', o=x, l=self.ale.n)
        return f

    def step(self, a):
        if a >= 2 and Sim.rng.random() < Sim.opt['p']:
            self.ale.n -= 1
        d = bool(self.ale.n <= 0 or (a >= 2 and Sim.rng.random() < .03))
        f, x = self._frame()
        r = Sim.rng.randint(-9, 9)
        Sim.add('step', [a], x, r, d, self.ale.n)
        return f, float(r), d, {'lives': self.ale.n}

    def close(self):
        Sim.add('close')


for i, c in (('VGym-v0', FakeGym), ('VGame-v0', FakeAtari), ('VGameNoFrameskip-v0', FakeAtari)):
    gym.register(i, entry_point=c, max_episode_steps=100000)
for t in (3, 7):
    gym.register('VGym%d-v0' % t, entry_point=FakeGym, max_episode_steps=t)


def I(x):
    return [int(v) for v in np.asarray(x, dtype=float).reshape(-1)]


def space(s):
    if isinstance(s, Discrete):
        return ['d', int(s.n), list(s.shape), [], []]
    return ['b', 0, list(s.shape), [repr(float(v)) for v in np.ravel(s.low)], [repr(float(v)) for v in np.ravel(s.high)]]


def wspace(d, n, lo, hi):
    return ['d', n, [1], [], []] if d else ['b', 0, [len(lo)], [repr(float(np.float32(v))) for v in lo], [repr(float(np.float32(v))) for v in hi]]


def run_gym(seed):
    rng = Sim.rng = random.Random(seed)
    Sim.log = []
    n, m = rng.randint(1, 3), rng.randint(1, 2)
    lo = [rng.randint(-20, -10) for _ in range(n)]
    al = [rng.randint(-4, 0) for _ in range(m)]
    o = Sim.opt = {'dobs': rng.random() < .25, 'olow': lo, 'ohigh': [rng.randint(10, 20) for _ in lo], 'disc': rng.random() < .5, 'na': rng.randint(2, 5),
                   'alow': al, 'ahigh': [a + rng.randint(1, 6) for a in al], 'dt': rng.choice([None, .25, .02])}
    ev = []
    with guarded(ev, 30):
        tl = rng.choice([None, 3, 7])
        hz = rng.choice([None, 5, 50])
        g = rng.choice([.9, .99, 1.])
        kw = {} if hz is None else {'horizon': hz}
        wr = rng.random()
        if wr < .3:
            kw['wrappers'] = [(Doubler, {'k': 5})]
        elif wr < .5:
            kw['wrappers'] = [Doubler]
        if wr < .5 and rng.random() < .5:
            kw['wrappers_args'] = [{'j': 3}]
        env = Gym('VGym-v0' if tl is None else 'VGym%d-v0' % tl, gamma=g, **kw)
        Sim.take()
        want = [hz or tl or 100000, repr(g), repr(o['dt'] or .1), wspace(o['dobs'], 40, o['olow'], o['ohigh']), wspace(o['disc'], o['na'], o['alow'], o['ahigh'])]
        got = [int(env.info.horizon), repr(float(env.info.gamma)), repr(float(env.info.dt)), space(env.info.observation_space), space(env.info.action_space)]
        if wr < .5:
            got.append(list(env.env.kj) if hasattr(env.env, 'kj') else [])
            want.append([5 if wr < .3 else 1, 3 if 'wrappers_args' in kw else 0])
        ev.append({'op': 'info', 'got': str(got), 'want': str(want)})
        kept = []
        fresh = False
        for _ in range(rng.randint(3, 25)):
            q = rng.random()
            if not fresh or q < .2:
                if rng.random() < .3 and not o['dobs']:
                    st = [rng.randint(-9, 9) for _ in lo]
                    arr = np.array(st, dtype=float)
                    x, inf = env.reset(arr)
                    ev.append({'op': 'reset', 'calls': Sim.take(), 'given': st, 'obs': I(x), 'st': I(env.env.unwrapped.state)})
                else:
                    x, inf = env.reset()
                    ev.append({'op': 'reset', 'calls': Sim.take(), 'given': [], 'obs': I(x), 'st': []})
                fresh = True
            elif q < .9:
                if o['disc']:
                    a = [rng.randrange(o['na'])]
                    x, r, ab, inf = env.step(np.array(a))
                else:
                    a = [rng.randint(*z) for z in zip(o['alow'], o['ahigh'])]
                    x, r, ab, inf = env.step(np.array(a, dtype=np.float32))
                ev.append({'op': 'step', 'a': a, 'calls': Sim.take(), 'obs': I(x), 'r': int(r), 'ab': int(bool(ab)), 'inf': inf.get('k', -1)})
            elif q < .95:
                env.seed(4)
                ev.append({'op': 'other', 'calls': [[c['c'], c['a']] for c in Sim.take()], 'want': [['seed', [4]]]})
                continue
            else:
                env.stop()
                ev.append({'op': 'other', 'calls': [[c['c'], c['a']] for c in Sim.take()], 'want': [['close', []]]})
                fresh = False
                continue
            if np.asarray(x).ndim != 1:
                ev.append({'op': 'info', 'got': str(np.asarray(x).ndim), 'want': '1'})
            kept.append((x, I(x)))
        ev.append({'op': 'kept', 'x': [I(x) for x, _ in kept], 'y': [y for _, y in kept]})
    ev.append({'op': 'end'})
    return {'cfg': {'w': 'gym', 'ends': 0}, 'ev': ev, 'kind': 'gym seed=%d' % seed}


def run_atari(seed):
    rng = Sim.rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    Sim.log = []
    many = rng.random() < .2
    c = {'w': 'atari', 'h': rng.randint(1, 4), 'skip': rng.randint(0, 1), 'max': int(rng.random() < .7), 'fire': rng.randint(0, 1), 'noop': rng.choice([0, 1, 2, 5]),
         'lives': rng.randint(1, 4), 'ends': rng.randint(0, 1), 'width': rng.choice([4, 6]), 'height': rng.choice([3, 5])}
    if many:
        c['noop'] = rng.choice([1, 2])
    Sim.opt = {'na': rng.randint(3, 5), 'lives': c['lives'], 'fire': c['fire'], 'p': .15 / (c['h'] if c['skip'] else 1)}
    ev = []
    with guarded(ev, 60):
        env = Atari('VGameNoFrameskip-v0' if c['skip'] else 'VGame-v0', width=c['width'], height=c['height'], ends_at_life=bool(c['ends']), max_pooling=bool(c['max']),
                    history_length=c['h'], max_no_op_actions=c['noop'])
        Sim.take()
        i = env.info
        ev.append({'op': 'info', 'got': str([i.gamma, i.horizon, round(i.dt, 9), list(i.observation_space.shape), float(np.min(i.observation_space.low)), float(np.max(i.observation_space.high)), i.action_space.n]),
                   'want': str([.99, np.inf, round(1 / 60, 9), [c['h'], c['height'], c['width']], 0., 255., Sim.opt['na']])})

        def levels(x):
            a = np.array(x)
            return [[int(f[0, 0]), int(f[-1, -1])] for f in a], list(a.shape)
        kept, over = [], True
        for t in range(rng.randint(120, 160) if many else rng.randint(5, 40)):
            q = rng.random()
            if over or (many and t % 2 == 0) or q < .04:
                x, inf = env.reset()
                o, sh = levels(x)
                ev.append({'op': 'reset', 'calls': Sim.take(), 'obs': o, 'shape': sh})
                over, first = False, True
            elif q < .93 or many:
                a = rng.randrange(1 if first else 0, Sim.opt['na'])
                if c['noop'] == 0:
                    a = rng.randrange(1, Sim.opt['na'])
                x, r, ab, inf = env.step(np.array([a]))
                o, sh = levels(x)
                ev.append({'op': 'step', 'a': [a], 'calls': Sim.take(), 'obs': o, 'r': int(r), 'ab': int(bool(ab)), 'inf': inf['lives']})
                over, first = bool(ab), False
            elif q < .97:
                e = rng.randint(0, 1)
                env.set_episode_end(bool(e))
                ev.append({'op': 'ends', 'x': e})
                continue
            else:
                env.stop()
                ev.append({'op': 'close', 'calls': Sim.take()})
                over = True
                continue
            kept.append((x, o))
        if many:
            ev.append({'op': 'noops'})
        ev.append({'op': 'kept', 'x': [levels(x)[0] for x, _ in kept], 'y': [y for _, y in kept]})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'atari seed=%d' % seed}


class Spec:
    def __init__(self, shape, lo=None, hi=None):
        self.shape, self.minimum, self.maximum = shape, lo, hi


class TimeStep:
    def __init__(self, o, r, d):
        self.observation, self.reward, self._d = o, r, d

    def last(self):
        return self._d


class FakeDM:
    def __init__(self, o):
        self.o, self._step_limit = o, o['limit']

    def action_spec(self):
        return Spec((len(self.o['alow']),), np.array(self.o['alow'], dtype=float), np.array(self.o['ahigh'], dtype=float))

    def observation_spec(self):
        return collections.OrderedDict((k, Spec(s)) for k, s in self.o['obs'])

    def _obs(self):
        d, flat = collections.OrderedDict(), []
        for k, s in self.o['obs']:
            v = np.array([Sim.rng.randint(-9, 9) for _ in range(int(np.prod(s, dtype=int)))], dtype=float).reshape(s)
            d[k] = float(v) if s == () else v
            flat += I(v)
        return d, flat

    def reset(self):
        self.t = 0
        d, f = self._obs()
        Sim.add('reset', o=f)
        return TimeStep(d, None, False)

    def step(self, a):
        self.t += 1
        d, f = self._obs()
        r, e = Sim.rng.randint(-9, 9), Sim.rng.random() < .1 or self.t >= self._step_limit
        Sim.add('step', a, f, r, e and self.t < self._step_limit)
        return TimeStep(d, float(r), e)


def run_dm(seed):
    from mushroom_rl.environments import dm_control_env as M
    rng = Sim.rng = random.Random(seed)
    Sim.log = []
    al = [rng.randint(-4, 0) for _ in range(rng.randint(1, 3))]
    o = {'alow': al, 'ahigh': [a + rng.randint(1, 6) for a in al], 'limit': rng.choice([2., 5., 1000.]),
         'obs': [('k%d' % i, rng.choice([(), (1,), (2,), (2, 2), (3,)])) for i in rng.sample(range(9), rng.randint(1, 4))]}
    ev = []
    old = M.suite.load
    try:
        with guarded(ev, 30):
            asked = []
            M.suite.load = lambda *a, **k: asked.append([list(a), k.get('task_kwargs')]) or FakeDM(o)
            hz, g, dt = rng.choice([None, 20]), rng.choice([.9, .99]), rng.choice([.01, .05])
            env = M.DMControl('dom', 'task', horizon=hz, gamma=g, dt=dt, task_kwargs={'random': 3})
            size = sum(int(np.prod(s, dtype=int)) for _, s in o['obs'])
            ev.append({'op': 'info', 'got': str([asked, float(env.info.horizon), env.info.gamma, env.info.dt, space(env.info.observation_space), space(env.info.action_space)]),
                       'want': str([[[['dom', 'task'], {'random': 3}]], float(hz or o['limit']), g, dt, ['b', 0, [size], ['-inf'] * size, ['inf'] * size], wspace(False, 0, o['alow'], o['ahigh'])])})
            kept, started = [], False
            for _ in range(rng.randint(3, 15)):
                if not started or rng.random() < .2:
                    x, _ = env.reset()
                    ev.append({'op': 'reset', 'calls': Sim.take(), 'given': [], 'obs': I(x), 'st': []})
                    started = True
                else:
                    a = [rng.randint(*z) for z in zip(o['alow'], o['ahigh'])]
                    x, r, ab, _ = env.step(np.array(a, dtype=float))
                    ev.append({'op': 'step', 'a': a, 'calls': Sim.take(), 'obs': I(x), 'r': int(r), 'ab': int(bool(ab)), 'inf': 0})
                kept.append((x, I(x)))
                if rng.random() < .3:
                    kept.append((x.copy(), I(x)))
                    kept.pop(-2)
                    x += 1
            ev.append({'op': 'kept', 'x': [I(x) for x, _ in kept], 'y': [y for _, y in kept]})
    finally:
        M.suite.load = old
    ev.append({'op': 'end'})
    return {'cfg': {'w': 'dm', 'ends': 0}, 'ev': ev, 'kind': 'dm_control seed=%d' % seed}


def run_make(seed):
    """The registry: make uses generate if there is one, and splits the name at its dots."""
    rng = random.Random(seed)
    ev = []
    with guarded(ev, 30):
        names = ['VEnv%d_%d' % (seed, i) for i in range(3)]
        gen = [rng.random() < .5 for _ in names]

        def mk(name, g, tag):
            class X(Environment):
                def __init__(self, *a, **k):
                    self.how = [tag, 'init', list(a), sorted(k.items())]
                    super().__init__(MDPInfo(Discrete(2), Discrete(2), .9, 10))
            if g:
                def generate(*a, **k):
                    e = X()
                    e.how = [tag, 'generate', list(a), sorted(k.items())]
                    return e
                X.generate = staticmethod(generate)
            X.__name__ = name
            return X
        cs = [mk(n, g, n) for n, g in zip(names, gen)]
        before = len(Environment.list_registered())
        for c in cs:
            c.register()
            if rng.random() < .3:
                c.register()
        again = mk(names[0], False, 'again')
        again.register()
        l = Environment.list_registered()
        ev.append({'op': 'made', 'got': str([len(l) - before, all(l.count(n) == 1 for n in names)]), 'want': str([3, True])})
        for _ in range(rng.randint(1, 5)):
            i = rng.randrange(3)
            parts = [str(rng.randint(0, 9)) for _ in range(rng.randint(0, 2))]
            a = [rng.randint(0, 9) for _ in range(rng.randint(0, 2))]
            k = {n: rng.randint(0, 9) for n in rng.sample('xyz', rng.randint(0, 2))}
            e = Environment.make('.'.join([names[i]] + parts), *a, **k)
            ev.append({'op': 'made', 'got': str(e.how), 'want': str([names[i], 'generate' if gen[i] else 'init', parts + a, sorted(k.items())])})
            j = {n: rng.randint(1, 9) for n in ('o', 'a', 'h')}
            mi = MDPInfo(Discrete(j['o']), Discrete(j['a']), .5, j['h'], dt=.25, backend='numpy')
            ev.append({'op': 'made', 'got': str([mi.size, mi.shape, mi.gamma, mi.horizon, mi.dt, mi.observation_space.size, list(mi.action_space.values)]),
                       'want': str([(j['o'], j['a']), (1, 1), .5, j['h'], .25, (j['o'],), list(np.arange(j['a']))])})
            sc = (rng.randint(-5, 0), rng.randint(1, 5))
            b = Box(*sc, shape=(j['o'],)) if rng.random() < .5 else Box(np.full(j['o'], sc[0] * 1.), np.full(j['o'], sc[1] * 1.))
            ev.append({'op': 'made', 'got': str(space(b)), 'want': str(wspace(False, 0, [sc[0]] * j['o'], [sc[1]] * j['o']))})
    ev.append({'op': 'end'})
    return {'cfg': {'w': 'make', 'ends': 0}, 'ev': ev, 'kind': 'registry seed=%d' % seed}


def run(seed):
    return [run_gym, run_gym, run_atari, run_atari, run_atari, run_dm, run_dm, run_make][seed % 8](seed)


def check(chk):
    chk.model('MCWrap', 'MCWrap_thorough' if chk.thorough else 'MCWrap')
    n = 12800 if chk.thorough else 1280
    chk.validate('TraceWrap', collect(lambda k: run(chk.seed * 100003 + k), range(n)))
