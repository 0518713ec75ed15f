"""W03: the tasks built on MuJoCo: air hockey and ball in a cup."""
import random

import mujoco
import numpy as np

from mushroom_rl.environments.mujoco_envs.air_hockey import AirHockeyDefend, AirHockeyHit, AirHockeyPrepare, AirHockeyRepel
from mushroom_rl.environments.mujoco_envs.air_hockey.double import AirHockeyDouble
from mushroom_rl.environments.mujoco_envs.ball_in_a_cup import BallInACup

from guard import guarded
from lib import collect

U = 100000
CLASSES = {'hit': AirHockeyHit, 'defend': AirHockeyDefend, 'prepare': AirHockeyPrepare, 'repel': AirHockeyRepel, 'double': AirHockeyDouble}
SHORT = {'rim_home_l', 'rim_home_r', 'rim_away_l', 'rim_away_r'}
CACHE = {}


def q(x):
    x = float(x)
    return int(round(np.clip(x, -2e4, 2e4) * U)) if np.isfinite(x) else 1999999999


def qs(x):
    return [q(v) for v in np.ravel(x)]


def recording(cls):
    class Rec(cls):
        def _simulation_post_step(self):
            super()._simulation_post_step()
            c = [0, 0, 0]
            m = self._model
            for k in range(self._data.ncon):
                a, b = [m.geom(int(g)).name for g in (self._data.contact[k].geom1, self._data.contact[k].geom2)]
                if 'puck' in (a, b):
                    o = b if a == 'puck' else a
                    c[0] |= o == 'planar_robot_1/ee'
                    c[1] |= o == 'planar_robot_2/ee'
                    c[2] |= o in SHORT
            self.contacts.append([int(x) for x in c])
            self.forces.append([float(x) for x in self._data.body('puck').xfrc_applied[:2]])
    return Rec


RECS = {k: recording(v) for k, v in CLASSES.items()}


def raw(env, n):
    d = env._data
    p, v = d.joint('puck').qpos, d.joint('puck').qvel
    fresh = mujoco.MjData(env._model)
    fresh.qpos[:] = d.qpos
    mujoco.mj_forward(env._model, fresh)
    out = {'x': q(p[0]), 'y': q(p[1]), 'vx': q(v[0]), 'vy': q(v[1]), 'w': q(v[5]), 'fast': int(np.sqrt(v[0] ** 2 + v[1] ** 2 + v[5] ** 2) > 100), 'arm': []}
    for r in range(1, n + 1):
        js = [d.joint('planar_robot_%d/joint_%d' % (r, k)) for k in (1, 2, 3)]
        out['arm'].append({'q': [q(j.qpos[0]) for j in js], 'qd': [q(j.qvel[0]) for j in js],
                           'ee': qs(fresh.body('planar_robot_%d/body_ee' % r).xpos[:2])})
    return out


def norm(x):
    return float(np.sqrt(np.sum(np.square(x))))


def terms(env, task, sub, p0, action):
    """The elementary terms of the rewards, from the data of the simulator."""
    d = env._data
    p, v = np.array(d.joint('puck').qpos[:2]), np.array(d.joint('puck').qvel[:2])
    ee = np.array(d.body('planar_robot_1/body_ee').xpos[:2])
    t = {'norm': norm(action)}
    dist = max(norm(p - ee), 1e-12)
    u = (p - ee) / dist
    near = np.exp(-8 * (dist - .08))
    gauss = lambda z, s: np.exp(-(z / s) ** 2 / 2) / (np.sqrt(2 * np.pi) * s)
    end = np.array([-8.10001913e-01, -1.43459494e-06])
    if task == 'hit':
        goal = np.array([.98, 0])
        w = .51 - .03165
        # a straight line to the mirrored goal meets the side at the bounce point
        s = np.copysign(1, p0[1])
        a = (w - abs(p0[1])) / (2 * w - abs(p0[1]))
        side = np.array([p0[0] + a * (goal[0] - p0[0]), s * w])
        c = [min(1, max(0, float((z - p0) @ u / norm(z - p0)))) for z in (goal, side)]
        t.update(before=near * max(c) ** 2, v4=min(1, .25 * v[0] ** 4), line=gauss(p[1], .1))
    elif task in ('defend', 'repel'):
        t.update(before=.3 * np.exp(-3 * abs(-.6 - ee[0])) + .35 * gauss(abs(p[1] - ee[1]) - .08, .2))
        if task == 'defend':
            t.update(stop=np.exp(-5 * abs(p[0] + .6)) + 3 * np.exp(-3 * abs(p[1])) + 5 * np.exp(-(5 * norm(v)) ** 2) + 1)
        else:
            t.update(v3=min(v[0] ** 3, 5), line=100 * np.exp(-3 * abs(p[1])))
    elif task == 'prepare':
        sg = np.copysign(1, p[1])
        if sub == 'side':
            c = min(1, max(0, float(u[1] * sg)))
            t.update(after=max(0, 1 - 10 * (np.exp(abs(v[0])) - 1)) + .5 - norm(ee - end) + 1)
        else:
            c = max(min(1, max(0, float(.2 * u[0] + .8 * sg * u[1]))), min(1, max(0, float(-u[0]))))
            t.update(after=gauss(p[0] + .75, .1) + 2 - abs(v[1]) + .5 * np.exp(-3 * norm(ee - end)) + 1)
        t.update(before=near * c ** 2, slow=100 * np.exp(-2 * norm(v)))
    return {k: q(x) for k, x in t.items()}


def place(env, rng):
    """Put the puck somewhere interesting."""
    d = env._data
    j = d.joint('puck')
    ee = np.array(d.body('planar_robot_%d/body_ee' % rng.randint(1, env.n_agents)).xpos[:2])
    w = rng.random()
    v = np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)])
    if w < .3:
        a = rng.uniform(0, 2 * np.pi)
        p = ee + rng.uniform(.07, .09) * np.array([np.cos(a), np.sin(a)])
    elif w < .45:
        p, v = np.array([rng.choice([-1, 1]) * rng.uniform(.955, .975), rng.uniform(-.2, .2)]), np.array([rng.uniform(-8, 8), 0])
    elif w < .6:
        p, v = np.array([rng.choice([-1, 1]) * rng.uniform(.93, .95), rng.choice([-1, 1]) * rng.uniform(.3, .45)]), np.array([rng.uniform(-6, 6), 0])
    elif w < .65:
        p, v = np.array([rng.uniform(-.9, .9), rng.choice([-1, 1]) * rng.uniform(.505, .52)]), v
    elif w < .7:
        p, v = np.array([rng.choice([-1, 1]) * rng.uniform(.97, 1.1), rng.uniform(-.5, .5)]), v * 0
    elif w < .8:
        p, v = np.array([rng.uniform(-.95, .95), rng.uniform(-.015, .015)]), v * .1
    elif w < .95:
        p, v = np.array([rng.uniform(-.9, .95), rng.uniform(-.47, .47)]), v * rng.choice([0, .05, 1])
    else:
        p, v = np.array([rng.uniform(-.5, .5), rng.uniform(-.4, .4)]), rng.choice([20., 98., 101.]) * (lambda z: np.array([abs(np.cos(z)), np.sin(z)]))(rng.uniform(0, 6))
    j.qpos[:3] = [p[0], p[1], 0]
    j.qvel[:] = [v[0], v[1], 0, 0, 0, rng.uniform(-3, 3)]


def limits(env, n):
    m = env._model
    return [{'lo': qs([m.joint('planar_robot_%d/joint_%d' % (r, k)).range[0] for k in (1, 2, 3)]),
             'hi': qs([m.joint('planar_robot_%d/joint_%d' % (r, k)).range[1] for k in (1, 2, 3)]),
             'vel': qs([np.pi / 2, np.pi / 2, np.pi * 2 / 3])} for r in range(1, n + 1)]


def run(seed):
    if seed % 300 == 7:
        return cup(seed)
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    task = rng.choice(['hit', 'hit', 'defend', 'prepare', 'prepare', 'repel', 'double'])
    noise, force, ni = int(rng.random() < .2), int(rng.random() < .2), rng.choice([1, 1, 2, 3])
    rnd, sub, side = int(rng.random() < .5), rng.choice(['side', 'bottom']), rng.choice(['right', 'left'])
    pen, hz, gm = rng.choice([0, 100, 2000]), rng.randint(5, 60), rng.choice([.9, .99])
    vel = rng.choice([(1, 2), (2, 4)])
    n = 2 if task == 'double' else 1
    c = {'task': task, 'noise': noise, 'force': force, 'ni': ni, 'rnd': rnd, 'sub': sub, 'side': side, 'pen': pen, 'n': n, 'v0': vel[0], 'v1': vel[1]}
    ev = []
    with guarded(ev, 120):
        kw = dict(env_noise=bool(force), obs_noise=bool(noise), n_intermediate_steps=ni, horizon=hz, gamma=gm, timestep=1 / 240)
        if task != 'double':
            kw.update(random_init=bool(rnd), action_penalty=pen / U)
        if task == 'prepare':
            kw.update(sub_problem=sub)
        if task in ('defend', 'repel'):
            kw.update(init_velocity_range=vel)
        if task == 'hit':
            kw.update(init_robot_state=side)
        env = RECS[task](**kw)
        env.contacts, env.forces = [], []
        sp = env.info.observation_space
        c['lim'] = limits(env, n)
        ev.append({'op': 'make', 'got': [q(env.info.gamma), int(env.info.horizon), q(env.info.dt), int(env.info.action_space.shape[0]), len(sp.low), len(sp.high)],
                   'want': [q(gm), hz, q(ni / 240), 3 * n, 13 if n == 1 else 25, 13 if n == 1 else 25]})
        p0 = None
        for k in range(rng.randint(6, 24)):
            if p0 is None or rng.random() < .12:
                obs, _ = env.reset()
                p0 = np.array(env._data.joint('puck').qpos[:2])
                ev.append({'op': 'reset', 'raw': raw(env, n), 'obs': qs(obs)})
                continue
            if rng.random() < .5:
                place(env, rng)
            a = np.array([rng.uniform(-1, 1) * rng.choice([1, 10]) for _ in range(3 * n)])
            env.contacts, env.forces = [], []
            b = a.copy()
            obs, r, ab, info = env.step(a)
            keep = np.array(obs)
            e = {'op': 'step', 'raw': raw(env, n), 'obs': qs(obs), 'con': env.contacts, 't': terms(env, task, sub, p0, b), 'r': q(r), 'ab': int(bool(ab)),
                 'same': int(np.array_equal(a, b)), 'forced': int(all(0 < norm(f) < .01 for f in env.forces)), 'forces': int(any(norm(f) > 0 for f in env.forces))}
            con = [info] if n == 1 else [info['agent-1'], info['agent-2']]
            e['info'] = [{'ee': qs(x['ee_constraints']), 'q': qs(x['joint_pos_constraints']), 'qd': qs(x['joint_vel_constraints'])} for x in con]
            got = [env.get_ee()] if n == 1 else [env.get_ee(1), env.get_ee(2)]
            e['gotee'] = [qs(x[0]) for x in got]
            e['wantee'] = [qs(env._data.body('planar_robot_%d/body_ee' % (i + 1)).xpos) for i in range(n)]
            ev.append(e)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'hockey %s seed=%d' % (task, seed)}


class Cup(BallInACup):
    move, seen = None, []

    def _step_finalize(self):
        super()._step_finalize()
        d = self._data
        if self.move is not None:
            d.body('ball').xpos[:] = np.array(d.site('cup_goal_final').xpos) + self.move
        names = [{self._model.geom(int(g)).name for g in (d.contact[k].geom1, d.contact[k].geom2)} for k in range(d.ncon)]
        self.touch = int(any('ball_geom' in x and any(w in y for y in x for w in ('cup_geom', 'wrist_', 'forearm_link')) for x in names))
        self.dist = norm(np.array(d.site('cup_goal_final').xpos) - np.array(d.body('ball').xpos))


def cup(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    ev = []
    c = {'task': 'cup', 'n': 0, 'lim': []}
    with guarded(ev, 300):
        env = Cup()
        ev.append({'op': 'make', 'got': [q(env.info.gamma), int(env.info.horizon), int(env.info.action_space.shape[0])], 'want': [q(.9999), 2000, 7]})
        first = None
        for _ in range(5):
            env.move = None
            o = env.reset()[0]
            first = qs(o) if first is None else first
            ev.append({'op': 'cupreset', 'obs': qs(o), 'first': first})
            for _ in range(rng.randint(3, 12)):
                w = np.array([rng.uniform(-1, 1) for _ in range(3)])
                env.move = None if rng.random() < .3 else w / norm(w) * rng.uniform(.03, .07)
                o, r, ab, _ = env.step(np.array([rng.uniform(-60, 60) for _ in range(7)]))
                ev.append({'op': 'cupstep', 'dist': q(env.dist), 'touch': env.touch, 'r': q(r), 'ab': int(bool(ab))})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'cup seed=%d' % seed}


def check(chk):
    for t in ['', '_defend', '_hit', '_repel', '_double'] if chk.thorough else ['', '_defend']:
        chk.model('MCHockey', 'MCHockey' + t)
    n = 12000 if chk.thorough else 1800
    chk.validate('TraceHockey', collect(lambda k: run(chk.seed * 300 + k), range(n)))
