"""E03: continuous environments."""
import random

import numpy as np

from mushroom_rl.environments import LQR, CarOnHill, CartPole, InvertedPendulum, PuddleWorld, Segway, ShipSteering

from guard import guarded
from lib import collect, encf
from p_dist import E1, E2

PI = np.pi
E = lambda v: encf(v, 10 ** 6)
V = lambda x: [E(v) for v in np.asarray(x, dtype=float).reshape(-1)]


def rew(r):
    r = float(np.squeeze(r))
    return -(10 ** 9) + int(round(r)) if r < -2000 else E(r)


def drive(rng, env, ev, n, states, action, enc_a, rate=.3, stop=True):
    """Random episodes; every observation is checked at the end to be as it was returned."""
    seen = []

    def keep(x):
        seen.append((x, np.array(x, copy=True)))
        return V(x)

    done = True
    for _ in range(n):
        if done or rng.random() < rate:
            g = states() if rng.random() < .7 else None
            out = env.reset(None if g is None else np.array(g, dtype=float))
            ev.append({'op': 'reset', 'g': [] if g is None else V(g), 'x': keep(out[0])})
            done = False
        else:
            a = action()
            obs, r, end, _ = env.step(np.array(a))
            ev.append({'op': 'step', 'a': enc_a(a), 'x': keep(obs), 'r': rew(r), 'end': int(bool(end))})
            done = bool(end)
    ev.append({'op': 'same', 'same': int(all(np.array_equal(x, y) for x, y in seen))})


def box(rng, *r):
    return lambda: [rng.uniform(-x, x) if rng.random() < .8 else rng.choice([-x, 0., x]) for x in r]


def infos(env):
    i = env.info
    a = i.action_space
    act = [a.n] if hasattr(a, 'n') else V(a.low) + V(a.high)
    return [E(i.gamma), int(i.horizon), act, [min(v, 10 ** 9) for v in V(i.observation_space.low) + V(i.observation_space.high)], E(i.dt)]


def start_info(ev, env, gamma, horizon, act, high, dt, low=None):
    enc = lambda z: [min(v, 10 ** 9) for v in V(z)]
    low = [-v for v in high] if low is None else low
    ev.append({'op': 'info', 'got': infos(env), 'want': [E(gamma), horizon, act, enc(low) + enc(high), E(dt)]})


def run_car(seed):
    rng = random.Random(seed)
    c = {'k': 'car', 'lo': V([-.5, 0]), 'hi': V([-.5, 0])}
    ev = []
    with guarded(ev, 60):
        h, g = rng.randint(5, 200), rng.randint(1, 16) / 16
        env = CarOnHill(horizon=h, gamma=g)
        start_info(ev, env, g, h, [2], [1, 3], .1)
        drive(rng, env, ev, 12, box(rng, 1., 3.), lambda: [rng.randrange(2)], lambda a: a[0])
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'CarOnHill seed=%d' % seed}


def stat(xs, lo, hi, ev):
    """Moments of samples that are (nearly) uniform over lo..hi, normalised to 0..1000000."""
    z = (np.array(xs) - lo) / (hi - lo)
    n = len(z)
    ev.append({'op': 'stat', 'mean': E(z.mean()), 'wm': 500000, 'tm': E(6 * .2887 / n ** .5 + .01), 'var': E(z.var()), 'wv': E(1 / 12),
               'tv': E(6 * .0745 / n ** .5 + .01)})


def run_pole(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    noise = rng.choice([0, 0, 0, 4, 10])
    p = {'m': rng.choice([.5, 1., 2., 2.]), 'M': rng.choice([2., 8., 8.]), 'l': rng.choice([.25, .5, .5, 1.]), 'g': rng.choice([5., 9.8, 9.8])}
    u = rng.choice([0., 20., 50.])
    c = dict(k='pole', noise=E(noise), u=E(u), lo=V([-PI / 8, 0]), hi=V([PI / 8, 0]), **{k: E(v) for k, v in p.items()})
    ev = []
    with guarded(ev, 60):
        h, g = rng.randint(5, 200), rng.randint(1, 16) / 16
        env = CartPole(max_u=u, noise_u=float(noise), horizon=h, gamma=g, **p)
        ev.append({'op': 'info', 'got': infos(env)[:3] + [E(env.info.dt)], 'want': [E(g), h, [3], E(.1)]})
        drive(rng, env, ev, 10, box(rng, rng.choice([.5, 1.6, 3.1, 8.]), rng.choice([1., 5.])), lambda: [rng.randrange(3)], lambda a: a[0], rate=.2)
        if noise:
            # from one state the next velocity is close to linear in the disturbance: its extremes are those of a noiseless pole
            x, n = [rng.uniform(-.2, .2), 0.], 150
            b = [CartPole(max_u=s * noise, noise_u=0., **p) for s in (1,)][0]
            ext = []
            for a in (2, 0):
                b.reset(np.array(x))
                ext.append(float(b.step(np.array([a]))[0][1]))
            got = []
            for _ in range(n):
                env.reset(np.array(x))
                got.append(float(env.step(np.array([1]))[0][1]))
            stat(got, ext[0], ext[1], ev)
            st = [float(env.reset()[0][0]) for _ in range(n)]
            stat(st, -PI / 8, PI / 8, ev)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'CartPole seed=%d' % seed}


def run_pend(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    p = {'m': rng.choice([.5, 1., 2.]), 'l': rng.choice([.5, 1., 2.]), 'g': rng.choice([5., 9.8, 9.8]), 'mu': rng.choice([0., .01, .5])}
    u = rng.choice([1., 5., 20.])
    rs = rng.random() < .5
    c = dict(k='pend', u=E(u), lo=V([-PI, 0] if rs else [PI / 2, 0]), hi=V([PI, 0] if rs else [PI / 2, 0]), **{k: E(v) for k, v in p.items()})
    ev = []
    with guarded(ev, 60):
        h, g = rng.randint(5, 200), rng.randint(1, 16) / 16
        env = InvertedPendulum(random_start=rs, max_u=u, horizon=h, gamma=g, **p)
        start_info(ev, env, g, h, V([-u, u]), [PI, 2.5 * PI], .01)
        drive(rng, env, ev, 12, box(rng, rng.choice([3.1, 8.]), rng.choice([1., 10.])), lambda: [rng.uniform(-2 * u, 2 * u)], lambda a: E(a[0]), rate=.2)
        if rs:
            stat([float(env.reset()[0][0]) for _ in range(150)], -PI, PI, ev)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'InvertedPendulum seed=%d' % seed}


def run_seg(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    rs = rng.random() < .5
    c = dict(k='seg', lo=V([-PI / 2, 0, 0] if rs else [-PI / 8, 0, 0]), hi=V([PI / 2, 0, 0] if rs else [-PI / 8, 0, 0]), lost=-(10 ** 9) - 10000)
    ev = []
    with guarded(ev, 60):
        env = Segway(random_start=rs)
        start_info(ev, env, .97, 300, V([-5, 5]), [PI / 2, 15, 75], .01)
        drive(rng, env, ev, 12, box(rng, rng.choice([.5, 1.6, 8.]), rng.choice([1., 12.]), rng.choice([1., 60.])), lambda: [rng.uniform(-8, 8)], lambda a: E(a[0]), rate=.2)
        if rs:
            stat([float(env.reset()[0][0]) for _ in range(150)], -PI / 2, PI / 2, ev)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'Segway seed=%d' % seed}


def run_ship(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    small = rng.random() < .5
    f = 150 if small else 1000
    w = PI / 12
    n = rng.randint(1, 5)
    c = dict(k='ship', f=f, n=n, lo=V([0, 0, PI / 2, 0] if small else [0, 0, -PI, -w]), hi=V([0, 0, PI / 2, 0] if small else [f, f, PI, w]),
             gs=V([100, 120] if small else [350, 400]), gd=V([1, -1] if small else [1, 0]), gl=20 if small else 100)
    gate = (lambda t: (100 + 20 * t, 120 - 20 * t)) if small else (lambda t: (350 + 100 * t, 400.))

    def states():
        q = rng.random()
        if q < .5:
            x, y = gate(rng.uniform(-.1, 1.1))
            x, y = x + rng.uniform(-2, 2), y + rng.uniform(-2, 2)
        elif q < .8:
            x, y = rng.choice([0, f, rng.uniform(0, f)]), rng.choice([0, f, rng.uniform(0, f)])
            x, y = min(max(x + rng.uniform(-1, 1), 0), f), min(max(y + rng.uniform(-1, 1), 0), f)
        else:
            x, y = rng.uniform(0, f), rng.uniform(0, f)
        return [x, y, rng.uniform(-PI, PI), rng.uniform(-w, w)]

    ev = []
    with guarded(ev, 60):
        env = ShipSteering(small=small, n_steps_action=n)
        start_info(ev, env, .99, 5000, V([-w, w]), [f, f, PI, w], .2, low=[0, 0, -PI, -w])
        drive(rng, env, ev, 30, states, lambda: [rng.uniform(-2 * w, 2 * w)], lambda a: E(a[0]), rate=.3)
        if not small:
            st = np.array([env.reset()[0] for _ in range(150)])
            for i, z in enumerate((0, 0, -PI, -w)):
                stat(st[:, i], z, (f, f, PI, w)[i], ev)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'ShipSteering seed=%d' % seed}


def run_lqr(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    n, m = rng.randint(1, 3), rng.randint(1, 3)
    mp, mu = rng.choice([0, 2, 5]), rng.choice([0, 1, 3])
    ep, rs = rng.random() < .5, rng.random() < .5
    ini = [rng.randint(-8, 8) / 4 for _ in range(n)] if rng.random() < .5 else None
    g, h = rng.randint(1, 16) / 16, rng.randint(5, 99)
    ev = []
    gen = rng.random() < .4
    mat = lambda a, b, k=4: [[rng.randint(-k, k) for _ in range(b)] for _ in range(a)]
    if gen:
        if rng.random() < .5:
            m = n
        eps, ix, sc = rng.choice([.25, .5, .125]), rng.randrange(min(n, m)), rng.choice([1., 2.])
        A = [[4 * (i == j) for j in range(n)] for i in range(n)]
        B = [[4 * (i == j) for j in range(m)] for i in range(n)]
        Q = [[4 * sc * (i == j) * (1 - eps if i == ix else eps) for j in range(n)] for i in range(n)]
        Rm = [[4 * sc * (i == j) * (eps if i == ix else 1 - eps) for j in range(m)] for i in range(m)]
    else:
        A, B, Q, Rm = mat(n, n), mat(n, m), mat(n, n), mat(m, m)
    c = {'k': 'lqr', 'mp': E(mp), 'mu': E(mu), 'ep': int(ep)}
    if gen:
        # matrices in 1/4 may be fractions of a quarter: scale the encoding by using rewards in quarters only
        if any(v != int(v) for M in (Q, Rm) for r in M for v in r):
            eps, sc = .25, 1.
            Q = [[4 * (i == j) * (1 - eps if i == ix else eps) for j in range(n)] for i in range(n)]
            Rm = [[4 * (i == j) * (eps if i == ix else 1 - eps) for j in range(m)] for i in range(m)]
    I = lambda M: [[int(v) for v in r] for r in M]
    c.update(A=I(A), B=I(B), Q=I(Q), R=I(Rm))
    lo = [-3.] * n if rs else ini or [.9 * mp if mp else 10.] * n
    hi = [3.] * n if rs else lo
    if rs and mp:
        lo, hi = [max(v, -mp) for v in lo], [min(v, mp) for v in hi]
    c.update(lo=V(lo), hi=V(hi))
    with guarded(ev, 60):
        kw = dict(max_pos=float(mp) if mp else np.inf, max_action=float(mu) if mu else np.inf, random_init=rs, episodic=ep, gamma=g, horizon=h,
                  initial_state=None if ini is None else np.array(ini))
        if gen:
            d = {'dimensions': n} if m == n and rng.random() < .5 else {'s_dim': n, 'a_dim': m}
            env = LQR.generate(eps=eps, index=ix, scale=sc, **d, **kw)
        else:
            env = LQR(np.array(A) / 4, np.array(B) / 4, np.array(Q) / 4, np.array(Rm) / 4, **kw)
        big = lambda v: v if v else np.inf
        acts = V([-big(mu)] * m + [big(mu)] * m)
        start_info(ev, env, g, h, acts, [big(mp)] * n, .1)
        drive(rng, env, ev, 12, box(rng, *[float(mp or 6)] * n), lambda: [rng.uniform(-4, 4) for _ in range(m)], V, rate=.25)
        for e in ev:
            if e['op'] == 'step' and max(abs(v) for v in e['x']) > 15 * 10 ** 6:
                del ev[ev.index(e):]
                break
        if rs and mp != 2:
            stat([float(env.reset()[0][-1]) for _ in range(150)], -3, 3, ev)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'LQR seed=%d' % seed}


def run_pud(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    dflt = rng.random() < .3
    start = [.2, .4] if dflt else [rng.randint(0, 16) / 16, rng.randint(0, 16) / 16]
    goal = [1., 1.] if dflt else [rng.randint(0, 16) / 16, rng.randint(0, 16) / 16]
    th, t = rng.choice([.1, .2, .5]), rng.choice([.05, .1, .3])
    noise, nr, rg = rng.choice([0, 0, .025]), rng.choice([0, 0, 1]), rng.choice([0., 5.])
    k = rng.randint(0, 3)
    pc = [[.3, .6], [.4, .5], [.8, .9]] if dflt else [[rng.random(), rng.random()] for _ in range(k)]
    pw = [[.1, .03], [.03, .1], [.03, .1]] if dflt else [[rng.choice([.1, .2, .3]), rng.choice([.1, .2, .3])] for _ in range(k)]
    c = dict(k='pud', t=E(t), noise=E(noise), nr=int(nr), rg=E(rg), goal=V(goal), th=E(th), pc=[V(x) for x in pc], pw=[V(x) for x in pw],
             pa=[E(1 / (PI * x[0] * x[1])) for x in pw], lo=V(start), hi=V(start), e1=E1, e2=E2)
    ev = []
    with guarded(ev, 60):
        h, g = rng.randint(5, 200), rng.randint(1, 16) / 16
        kw = {} if dflt else dict(start=np.array(start), goal=np.array(goal), puddle_center=pc, puddle_width=pw)
        env = PuddleWorld(goal_threshold=th, noise_step=noise, noise_reward=nr, reward_goal=rg, thrust=t, gamma=g, horizon=h, **kw)
        start_info(ev, env, g, h, [5], [1, 1], .1, low=[0, 0])
        near = [goal] + pc

        def states():
            if rng.random() < .5:
                return [rng.random(), rng.random()]
            x = rng.choice(near)
            return [min(max(v + rng.uniform(-.2, .2), 0.), 1.) for v in x]
        drive(rng, env, ev, 16, states, lambda: [rng.randrange(5)], lambda a: a[0], rate=.2)
        x = next(([a, b] for a in (.4, .6, .5) for b in (.4, .6, .5) if abs(a - goal[0]) + abs(b - goal[1]) > th + .1), None)
        if noise and x:
            out = []
            for _ in range(150):
                env.reset(np.array(x))
                out.append(env.step(np.array([4]))[0])
            for i in range(2):
                stat(np.array(out)[:, i], x[i] - noise, x[i] + noise, ev)
        elif nr and x:
            out = []
            for _ in range(150):
                env.reset(np.array(x))
                out.append(float(env.step(np.array([4]))[1]))
            mean = PuddleWorld(noise_step=0, noise_reward=0, goal_threshold=th, **kw)
            mean.reset(np.array(x))
            z = np.array(out) - float(mean.step(np.array([4]))[1])
            ev.append({'op': 'stat', 'mean': E(z.mean()), 'wm': 0, 'tm': E(.5), 'var': E(z.var()), 'wv': E(nr ** 2), 'tv': E(.7 * nr ** 2)})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'PuddleWorld seed=%d' % seed}


ALL = (run_car, run_pole, run_pend, run_seg, run_ship, run_lqr, run_pud)


def check(chk):
    chk.model('MCEnvDyn', 'MCEnvDyn_thorough' if chk.thorough else 'MCEnvDyn')
    n = 700 if chk.thorough else 60
    for f in ALL:
        chk.validate('TraceEnvDyn', collect(lambda k: f(chk.seed * 100109 + k), range(n)))
