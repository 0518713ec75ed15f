"""W02: environments over MuJoCo and PyBullet: hooks, intermediate steps, layout of observations and actions."""
import os
import random
import shutil
import tempfile

import numpy as np

import mujoco
import pybullet
from dm_control import mjcf
from pybullet_utils.bullet_client import BulletClient

from mushroom_rl.environments.mujoco import MuJoCo, MultiMuJoCo
from mushroom_rl.environments.pybullet import PyBullet
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.utils.mujoco import ObservationType as OT
from mushroom_rl.utils.pybullet import PyBulletObservationType as PT

from guard import guarded
from lib import collect

INF = 2000000000


def E(x):
    """Numbers of the trace: scaled, rounded, bounded."""
    out = []
    for v in np.asarray(x, dtype=float).reshape(-1):
        out.append(INF if v == np.inf else -INF if v == -np.inf else int(round(float(np.clip(v, -1e4, 1e4)) * 1e5)))
    return out


XML = '''<mujoco><compiler angle="radian"/><option timestep="%(ts)s" gravity="0 0 -2"/><worldbody>
<geom name="floor" type="plane" size="5 5 .1"/>
<body name="b1" pos="0 0 1"><joint name="j1" type="hinge" axis="0 1 0" ref="%(r1)s" range="-1.5 2.5" limited="true"/><geom name="g1" type="sphere" size=".2" pos=".3 0 0"/><site name="s1" pos=".5 0 .1"/>
 <body name="b2" pos=".6 0 0"><joint name="j2" type="slide" axis="1 0 0" ref="%(r2)s"/><geom name="g2" type="sphere" size=".1"/><site name="s2" pos="0 .2 .1"/></body></body>
<body name="b3" pos="%(x3)s 0 .31"><freejoint name="j3"/><geom name="g3" type="sphere" size=".3"/><geom name="h3" type="sphere" size=".2" pos="0 .4 .2"/></body>
<body name="b4" pos="-1 0 1"><joint name="j4" type="slide" axis="0 0 1" ref="%(r4)s" range="-%(l4)s .5" limited="true"/><geom name="g4" type="box" size=".1 .1 .2"/></body>
</worldbody><actuator><motor name="m4" joint="j4" ctrllimited="true" ctrlrange="-3 1"/><motor name="m1" joint="j1" ctrllimited="true" ctrlrange="-1 2"/><motor name="m2" joint="j2"/>
<motor name="m5" joint="j2" gear="2" ctrllimited="true" ctrlrange="-.5 %(h5)s"/></actuator></mujoco>'''
NU = ['m4', 'm1', 'm2', 'm5']
CTRL = {'m4': (-3, 1), 'm1': (-1, 2), 'm2': (-np.inf, np.inf), 'm5': (-.5, 1)}
KIND = {OT.JOINT_POS: 'jp', OT.JOINT_VEL: 'jv'}
SIZE = {OT.BODY_POS: 3, OT.BODY_ROT: 4, OT.BODY_VEL: 6, OT.BODY_VEL_WORLD: 6, OT.SITE_POS: 3, OT.SITE_ROT: 9}


def raw_of(m, d, name, ot):
    if ot in (OT.JOINT_POS, OT.JOINT_VEL):
        j = mujoco.mj_name2id(m, mujoco.mjtObj.mjOBJ_JOINT, name)
        a = m.jnt_qposadr[j] if ot is OT.JOINT_POS else m.jnt_dofadr[j]
        k = (7 if ot is OT.JOINT_POS else 6) if name == 'j3' else 1
        return (d.qpos if ot is OT.JOINT_POS else d.qvel)[a:a + k].copy()
    if ot in (OT.SITE_POS, OT.SITE_ROT):
        i = mujoco.mj_name2id(m, mujoco.mjtObj.mjOBJ_SITE, name)
        return (d.site_xpos if ot is OT.SITE_POS else d.site_xmat)[i].copy()
    i = mujoco.mj_name2id(m, mujoco.mjtObj.mjOBJ_BODY, name)
    if ot is OT.BODY_POS:
        return d.xpos[i].copy()
    if ot is OT.BODY_ROT:
        return d.xquat[i].copy()
    v = np.zeros(6)
    mujoco.mj_objectVelocity(m, d, mujoco.mjtObj.mjOBJ_XBODY, i, v, 1 if ot is OT.BODY_VEL else 0)
    return v


class Hooks:
    """What subclasses override, recorded."""
    on = False

    def hook(self, h, **k):
        if self.on:
            self.hooks.append(dict(h=h, **k))

    def _preprocess_action(self, action):
        out = action * self.gain
        self.hook('prep', a=E(action), out=E(out))
        return out

    def _step_init(self, obs, action):
        self.hook('init', o=E(obs), a=E(action))

    def _simulation_pre_step(self):
        self.hook('pre', **self.sim_now(False))

    def _simulation_post_step(self):
        self.hook('post', **self.sim_now(True))

    def _step_finalize(self):
        self.hook('fin')

    def is_absorbing(self, obs):
        self.out['abs'] = self.rng.randint(0, 1) if self.on else 0
        self.hook('abs', o=E(obs), out=self.out['abs'])
        return bool(self.out['abs'])

    def reward(self, obs, action, next_obs, absorbing):
        r = self.rng.randint(-9, 9) if self.on else 0
        self.hook('rew', o=E(obs), a=E(action), n=E(next_obs), ab=int(absorbing), out=r)
        return float(r)

    def _create_info_dictionary(self, obs):
        i = self.rng.randint(0, 99) if self.on else 0
        self.hook('info', o=E(obs), out=i)
        return {'i': i}


class Recompute:
    def _compute_action(self, obs, action):
        out = action + .25 * self.rng.randint(-4, 4)
        self.hook('act', o=E(obs), a=E(action), out=E(out))
        return out


class MjHooks(Hooks):
    def setting(self, o):
        self.o, self.rng, self.gain, self.out, self.hooks = o, o['rng'], o['gain'], {}, []

    def extra(self):
        n = round(self._data.time / self.o['ts'])
        return [np.array([n + i for i in range(k)], dtype=float) for _, k, _, _ in self.o['add']]

    def raw(self):
        return [E(raw_of(self._model, self._data, n, t)) for _, n, t in self.o['spec']] + [E(x) for x in self.extra()]

    def sim_now(self, post):
        x = {'t': int(round(self._data.time / self.o['ts']))}
        if post:
            x['raw'] = self.raw()
        else:
            x['ctrl'] = E(self._data.ctrl)
        return x

    def _modify_mdp_info(self, mdp_info):
        for h in getattr(self, 'obs_helpers', [self.obs_helper]):
            for key, i in self.o['rem']:
                h.remove_obs(key, i)
            for key, n, lo, hi in self.o['add']:
                h.add_obs(key, n, lo, hi)
        mdp_info.observation_space = Box(*self.obs_helper.get_obs_limits())
        return mdp_info

    def _create_observation(self, obs):
        return np.concatenate([obs] + self.extra())

    def _modify_observation(self, obs):
        self.hook('mod', o=E(obs))
        return -obs if self.o['neg'] else obs


def mj_class(base, comp):
    class X(*(([Recompute] if comp else []) + [MjHooks, base])):
        def __init__(self, o, *a, **k):
            self.setting(o)
            base.__init__(self, *a, **k)
    return X


def run_mj(seed, multi):
    rng = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    d = tempfile.mkdtemp(prefix='verif-mj-')
    ev = []
    c = {}
    try:
        with guarded(ev, 60):
            one_mj(rng, multi, d, ev, c)
    finally:
        shutil.rmtree(d)
    ev.append({'op': 'end'})
    return {'cfg': c or {'sim': 'mujoco'}, 'ev': ev, 'kind': 'mujoco%s seed=%d' % (' multi' if multi else '', seed)}


def one_mj(rng, multi, d, ev, C):
    xmlts = rng.choice([.01, .02, .005])
    ts = rng.choice([None, .01, .004])
    nm = rng.randint(1, 3) if multi else 1

    def model(i, **k):
        p = dict(ts=xmlts, r1=.25 * i, r2=.5 * i, r4=.125 * i, x3=.9 if rng.random() < .5 else 2, l4=.5, h5=1)
        p.update(k)
        s = XML % p
        if rng.random() < .5:
            return mjcf.from_xml_string(s)
        f = os.path.join(d, 'm%d_%d.xml' % (i, rng.randrange(10 ** 9)))
        open(f, 'w').write(s)
        return f
    cand = [('p%s' % j, j, OT.JOINT_POS) for j in ('j1', 'j2', 'j3', 'j4')] + [('v%s' % j, j, OT.JOINT_VEL) for j in ('j1', 'j2', 'j3', 'j4')] + \
        [('%s%s' % (b, t.name), b, t) for b in ('b1', 'b2', 'b3', 'b4') for t in (OT.BODY_POS, OT.BODY_ROT, OT.BODY_VEL, OT.BODY_VEL_WORLD)] + \
        [('%s%s' % (b, t.name), b, t) for b in ('s1', 's2') for t in (OT.SITE_POS, OT.SITE_ROT)]
    spec = rng.sample(cand[:8], rng.randint(1, 4)) + rng.sample(cand[8:], rng.randint(0, 3))
    rng.shuffle(spec)
    size = [SIZE.get(t) or ((7 if t is OT.JOINT_POS else 6) if n == 'j3' else 1) for _, n, t in spec]
    rem = []
    for (k, n, t), z in zip(spec, size):
        if z > 1 and rng.random() < .4:
            for i in rng.sample(range(z), rng.randint(1, z - 1)):
                rem.append((k, i))
    rng.shuffle(rem)
    add = []
    for i in range(rng.choice([0, 0, 1, 2])):
        n = rng.randint(1, 3)
        add.append(('extra%d' % i, n, [float(-j) for j in range(n)] if rng.random() < .5 else -2., [float(j + 1) for j in range(n)] if rng.random() < .5 else 3.))
    names = [] if rng.random() < .3 else rng.sample(NU, rng.randint(1, 4))
    used = names or NU
    vel = rng.random() < .5
    vmax = [float(rng.randint(1, 9)) for _ in range(9)]
    kk, m = rng.randint(1, 3), rng.randint(1, 3)
    comp = rng.random() < .5
    T = ts or xmlts
    o = {'rng': rng, 'gain': rng.choice([1., .5]), 'spec': spec, 'rem': rem, 'add': add, 'neg': rng.random() < .3, 'ts': T}
    groups = [('A', ['g1', 'g2']), ('B', ['g3', 'h3']), ('C', ['floor']), ('D', ['g4', 'g3']), ('E', ['h3'])]
    data = [('dp', 'j2', OT.JOINT_POS), ('dv', 'j4', OT.JOINT_VEL), ('df', 'j3', OT.JOINT_POS), ('db', 'b2', OT.BODY_POS), ('dw', 'b3', OT.BODY_VEL)]
    kw = dict(timestep=ts, n_substeps=m, n_intermediate_steps=kk, additional_data_spec=data, collision_groups=groups, max_joint_vel=vmax if vel else None)
    g, hz = rng.choice([.9, .99]), rng.choice([10, 100])
    files = [model(i) for i in range(nm)]
    if multi:
        rand = rng.random() < .5
        env = mj_class(MultiMuJoCo, comp)(o, files, names, spec, g, hz, random_env_reset=rand, **kw)
    else:
        rand = False
        env = mj_class(MuJoCo, comp)(o, files[0], names, spec, g, hz, **kw)
    ent, v = [], iter(vmax)
    for (k, n, t), z in zip(spec, size):
        lo, hi = [-INF] * z, [INF] * z
        if z == 1 and t is OT.JOINT_POS and n in ('j1', 'j4'):
            lo, hi = (E([-1.5]), E([2.5])) if n == 'j1' else (E([-.5]), E([.5]))
        if z == 1 and t is OT.JOINT_VEL and vel:
            x = next(v)
            lo, hi = E([-x]), E([x])
        ent.append({'key': k, 'kind': KIND.get(t, '-'), 'n': z, 'rem': [i + 1 for kk_, i in rem if kk_ == k], 'lo': lo, 'hi': hi})
    for k, n, lo, hi in add:
        ent.append({'key': k, 'kind': '+', 'n': n, 'rem': [], 'lo': E(lo if isinstance(lo, list) else [lo] * n), 'hi': E(hi if isinstance(hi, list) else [hi] * n)})
    fresh = []
    for i in range(nm):
        mo = MuJoCo.load_model(files[i])
        q = []
        for (k, n, t), z in zip(spec, size):
            q.append(E(raw_of(mo, mujoco.MjData(mo), n, t)))
        fresh.append(q + [[0] * n for _, n, _, _ in add])
    c = C
    c.update({'sim': 'mujoco', 'ent': ent, 'neg': int(o['neg']), 'k': kk, 'm': m, 'comp': int(comp), 'nu': 4, 'idx': [NU.index(u) + 1 for u in used],
         'alow': E([CTRL[u][0] for u in used]), 'ahigh': E([CTRL[u][1] for u in used]), 'rest': str([g, hz, round(T * kk * m, 9)]), 'models': nm, 'rand': int(rand), 'q0': fresh})
    L = sum(e['n'] - len(e['rem']) for e in ent)
    ar = np.arange(1., L + 1)
    h = env.obs_helper

    def which(x):
        return [int(i) for i in np.asarray(x).reshape(-1)]
    i = env.info
    ev.append({'op': 'info', 'low': E(i.observation_space.low), 'high': E(i.observation_space.high), 'alow': E(i.action_space.low), 'ahigh': E(i.action_space.high),
               'rest': str([i.gamma, i.horizon, round(i.dt, 9)]), 'where': [which(h.get_from_obs(ar, e['key'])) for e in ent], 'keys': list(env.get_all_observation_keys()),
               'jp': which(h.get_joint_pos_from_obs(ar)), 'jv': which(h.get_joint_vel_from_obs(ar)),
               'jpl': [E(x) for x in h.get_joint_pos_limits()], 'jvl': [E(x) for x in h.get_joint_vel_limits()]})
    kept = []
    long = multi and rand and rng.random() < .3
    started = False
    for t in range(60 if long else rng.randint(3, 14)):
        q = rng.random()
        if not started or q < (.8 if long else .2):
            given = []
            if rng.random() < .4:
                obs = np.array([rng.randint(-3, 3) / 8 for _ in range(L)])
                p = 0
                for e in ent:
                    for j in range(1, e['n'] + 1):
                        if j not in e['rem']:
                            if e['kind'] == 'jp' and e['n'] == 7:
                                obs[p] = [1.5, 0, .5, 1, 0, 0, 0][j - 1]
                            p += 1
                given = E(obs)
            x = env.reset(obs) if given else env.reset()
            ok = isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict)
            x = x[0] if isinstance(x, tuple) else x
            raw = env.raw()
            mi = 0
            if multi:
                mi = next((i for i in range(nm) if abs(float(env._model.qpos0[1]) - .5 * i) < 1e-9), -1)
            ev.append({'op': 'reset', 'given': given, 'raw': raw, 'obs': E(x), 'm': mi, 't': int(round(env._data.time / T)), 'ctrl': E(env._data.ctrl), 'inf': int(ok)})
            started = True
            kept.append((x, E(x)))
        elif q < .85:
            a = np.array([rng.randint(-8, 8) / 8 for _ in used])
            a0 = E(a)
            env.hooks, env.on = [], True
            x, r, ab, inf = env.step(a)
            env.on = False
            ev.append({'op': 'step', 'a': a0, 'hooks': env.hooks, 'obs': E(x), 'r': int(r), 'ab': int(bool(ab)), 'inf': inf.get('i', -1)})
            kept.append((x, E(x)))
        elif q < .95:
            a, b = rng.sample(groups, 2)
            con = env._data.contact
            pairs, forces = [], []
            for j in range(env._data.ncon):
                pairs.append([mujoco.mj_id2name(env._model, mujoco.mjtObj.mjOBJ_GEOM, int(z)) for z in (con[j].geom1, con[j].geom2)])
                f = np.zeros(6)
                mujoco.mj_contactForce(env._model, env._data, j, f)
                forces.append(E(f))
            ev.append({'op': 'coll', 'a': a[1], 'b': b[1], 'pairs': pairs, 'forces': forces, 'got': int(bool(env._check_collision(a[0], b[0]))), 'force': E(env._get_collision_force(a[0], b[0]))})
        else:
            k, n, ot = rng.choice(data)
            if ot in KIND and n != 'j3':
                val = np.array([rng.randint(-4, 4) / 16])
                env._write_data(k, val)
                ev.append({'op': 'data', 'got': [E(env._read_data(k)), E(raw_of(env._model, env._data, n, ot))], 'want': [E(val), E(val)]})
            else:
                ev.append({'op': 'data', 'got': [E(env._read_data(k))], 'want': [E(raw_of(env._model, env._data, n, ot))]})
    if long:
        ev.append({'op': 'models'})
    ev.append({'op': 'kept', 'x': [E(x) for x, _ in kept], 'y': [y for _, y in kept]})
    if multi:
        n = rng.randint(1, 40)
        j = rng.randrange(n)
        ev.append({'op': 'ids', 'n': n, 'i': j, 'bits': [int(b) for b in MultiMuJoCo._get_env_id_map(j, n)]})
        if rng.random() < .5:
            bad = rng.choice(['l4', 'h5'])
            seen = any(n_ == 'j4' and t is OT.JOINT_POS for _, n_, t in spec) if bad == 'l4' else 'm5' in used
            o2 = dict(o, rem=[], add=[])
            try:
                mj_class(MultiMuJoCo, comp)(o2, [model(0), model(1, **({'l4': .75} if bad == 'l4' else {'h5': 2}))], names, spec, g, hz, **kw)
                got = 0
            except ValueError:
                got = 1
            ev.append({'op': 'refused', 'got': got, 'want': int(seen)})


URDF = '''<?xml version="1.0"?><robot name="%(name)s"><link name="%(n)sbase">%(in)s</link>
<joint name="%(n)sj1" type="revolute"><parent link="%(n)sbase"/><child link="%(n)sl1"/><origin xyz="0 0 .5"/><axis xyz="0 1 0"/><limit lower="-1.5" upper="2.5" effort="%(e1)s" velocity="6"/></joint>
<link name="%(n)sl1">%(in)s</link>
<joint name="%(n)sfix" type="fixed"><parent link="%(n)sl1"/><child link="%(n)slf"/><origin xyz="0 .5 0"/></joint><link name="%(n)slf">%(in)s</link>
<joint name="%(n)sj2" type="prismatic"><parent link="%(n)slf"/><child link="%(n)sl2"/><origin xyz=".4 0 0"/><axis xyz="1 0 0"/><limit lower="-.5" upper=".75" effort="20" velocity="3"/></joint>
<link name="%(n)sl2">%(in)s</link></robot>'''
BODY = '<inertial><mass value="1"/><inertia ixx=".1" iyy=".1" izz=".1" ixy="0" ixz="0" iyz="0"/></inertial><collision><geometry><sphere radius=".2"/></geometry></collision>'
PDIM = {PT.BODY_POS: 7, PT.BODY_LIN_VEL: 3, PT.BODY_ANG_VEL: 3, PT.LINK_POS: 7, PT.LINK_LIN_VEL: 3, PT.LINK_ANG_VEL: 3, PT.JOINT_POS: 1, PT.JOINT_VEL: 1, PT.CONTACT_FLAG: 1}
MODES = {'p': pybullet.POSITION_CONTROL, 'v': pybullet.VELOCITY_CONTROL, 't': pybullet.TORQUE_CONTROL}


class World:
    """The same models in a simulator of our own."""

    def __init__(self, files, ts):
        self.c = BulletClient(connection_mode=pybullet.DIRECT)
        self.c.setTimeStep(ts)
        self.c.setGravity(0, 0, -9.81)
        self.m, self.j, self.l = {}, {}, {}
        for f, kw in files:
            i = self.c.loadURDF(f, **kw)
            self.m[self.c.getBodyInfo(i)[1].decode()] = i
            for j in range(self.c.getNumJoints(i)):
                self.c.setJointMotorControl2(i, j, pybullet.POSITION_CONTROL, force=0)
                q = self.c.getJointInfo(i, j)
                self.l[q[12].decode()] = (i, j)
                if q[2] != pybullet.JOINT_FIXED:
                    self.j[q[1].decode()] = (i, j)
        self.s = self.c.saveState()

    def one(self, n, t):
        c = self.c
        if t is PT.BODY_POS:
            p, q = c.getBasePositionAndOrientation(self.m[n])
            return list(p) + list(q)
        if t in (PT.BODY_LIN_VEL, PT.BODY_ANG_VEL):
            return c.getBaseVelocity(self.m[n])[0 if t is PT.BODY_LIN_VEL else 1]
        if t is PT.LINK_POS:
            q = c.getLinkState(*self.l[n])
            return list(q[0]) + list(q[1])
        if t in (PT.LINK_LIN_VEL, PT.LINK_ANG_VEL):
            return c.getLinkState(*self.l[n], computeLinkVelocity=True)[6 if t is PT.LINK_LIN_VEL else 7]
        if t is PT.CONTACT_FLAG:
            a, b = [self.l[x] if x in self.l else (self.m[x], -1) for x in n.split('<->')]
            return [int(any(True for p in c.getContactPoints(a[0], b[0], a[1], b[1])))]
        return [c.getJointState(*self.j[n])[0 if t is PT.JOINT_POS else 1]]

    def raw(self, spec):
        return [E(self.one(n, t)) for n, t in spec]

    def control(self, acts, u):
        for (n, mode), x in zip(acts, u):
            i, j = self.j[n]
            q = self.c.getJointInfo(i, j)
            if mode == MODES['t']:
                self.c.setJointMotorControl2(i, j, mode, force=x)
            else:
                self.c.setJointMotorControl2(i, j, mode, maxVelocity=q[11], force=q[10], **{'targetPosition' if mode == MODES['p'] else 'targetVelocity': x})


class Bullet(Hooks, PyBullet):
    def __init__(self, o, *a, **k):
        self.o, self.rng, self.gain, self.out, self.hooks, self.world, self.n = o, o['rng'], o['gain'], {}, [], None, 0
        super().__init__(*a, **k)

    def sim_now(self, post):
        w = self.world
        if post:
            w.c.stepSimulation()
            self.n += 1
            return {'t': self.n, 'raw': self.mine(), 'ref': w.raw(self.o['spec'])}
        w.control(self.o['acts'], self.u)
        return {'t': self.n, 'ctrl': []}

    def mine(self):
        """What our own reader finds in the simulator of the environment."""
        w = World.__new__(World)
        w.c, w.m, w.j, w.l = self.client, self.world.m, self.world.j, self.world.l
        return w.raw(self.o['spec'])

    def _preprocess_action(self, action):
        self.u = super()._preprocess_action(action)
        return self.u

    def _compute_action(self, obs, action):
        out = action + (.25 * self.rng.randint(-4, 4) if self.o['comp'] else 0)
        self.hook('act', o=E(obs), a=E(action), out=E(out))
        self.u = out
        return out

    def _create_observation(self, state):
        self.hook('mod', o=E(state))
        return -state if self.o['neg'] else state

    def setup(self, state):
        self.got = None if state is None else state.copy()


def run_bullet(seed):
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix='verif-pb-')
    ev, c = [], {}
    try:
        with guarded(ev, 60):
            one_bullet(rng, d, ev, c)
    finally:
        shutil.rmtree(d)
    ev.append({'op': 'end'})
    return {'cfg': c or {'sim': 'bullet'}, 'ev': ev, 'kind': 'pybullet seed=%d' % seed}


def one_bullet(rng, d, ev, C):
    pos = [[0, 0, 1], [.3, .5, 1.5]] if rng.random() < .5 else [[0, 0, 1], [3, 0, 1]]
    files = []
    for i, n in enumerate('ab'):
        f = os.path.join(d, n + '.urdf')
        open(f, 'w').write(URDF % {'name': 'robot' + n, 'n': n, 'in': BODY, 'e1': 50 + 10 * i})
        files.append((f, {'basePosition': pos[i], 'useFixedBase': i == 0}))
    cand = [(n + j, t) for n in 'ab' for j in ('j1', 'j2') for t in (PT.JOINT_POS, PT.JOINT_VEL)]
    oth = [('robot' + n, t) for n in 'ab' for t in (PT.BODY_POS, PT.BODY_LIN_VEL, PT.BODY_ANG_VEL)] + \
        [(n + j, t) for n in 'ab' for j in ('l1', 'l2', 'lf') for t in (PT.LINK_POS, PT.LINK_LIN_VEL, PT.LINK_ANG_VEL)] + \
        [('%s<->%s' % x, PT.CONTACT_FLAG) for x in (('al1', 'bl1'), ('bl2', 'al1'), ('robota', 'robotb'), ('al2', 'robotb'), ('robotb', 'al1'))]
    spec = rng.sample(cand, rng.randint(1, 5)) + rng.sample(oth, rng.randint(0, 4))
    rng.shuffle(spec)
    acts = [(n, MODES[rng.choice('pvt')]) for n in rng.sample(['aj1', 'aj2', 'bj1', 'bj2'], rng.randint(1, 4))]
    ts, k = rng.choice([1 / 240, 1 / 100]), rng.randint(1, 3)
    o = {'rng': rng, 'gain': rng.choice([1., .5]), 'spec': spec, 'acts': acts, 'comp': rng.random() < .5, 'neg': rng.random() < .3}
    g, hz = rng.choice([.9, .99]), rng.choice([10, 100])
    env = Bullet(o, dict(files), acts, spec, g, hz, timestep=ts, n_intermediate_steps=k)
    w = env.world = World(files, ts)
    jl = {'1': (-1.5, 2.5, 6, None), '2': (-.5, .75, 3, 20)}
    eff = {'aj1': 50, 'bj1': 60, 'aj2': 20, 'bj2': 20}
    ent = []
    for n, t in spec:
        z = PDIM[t]
        lo, hi = [-INF] * z, [INF] * z
        if t is PT.JOINT_POS:
            lo, hi = E([jl[n[-1]][0]]), E([jl[n[-1]][1]])
        elif t is PT.JOINT_VEL:
            lo, hi = E([-jl[n[-1]][2]]), E([jl[n[-1]][2]])
        elif t is PT.CONTACT_FLAG:
            lo, hi = E([0]), E([1])
        ent.append({'key': n, 'kind': {PT.JOINT_POS: 'jp', PT.JOINT_VEL: 'jv'}.get(t, '-'), 'n': z, 'rem': [], 'lo': lo, 'hi': hi})
    al, ah = [], []
    for n, m in acts:
        q = jl[n[-1]]
        lo, hi = (q[0], q[1]) if m == MODES['p'] else (-q[2], q[2]) if m == MODES['v'] else (-eff[n], eff[n])
        al.append(lo)
        ah.append(hi)
    c = C
    c.update({'sim': 'bullet', 'ent': ent, 'neg': int(o['neg']), 'k': k, 'm': 1, 'comp': 1, 'nu': 0, 'idx': [], 'alow': E(al), 'ahigh': E(ah), 'rest': str([g, hz, round(ts * k, 9)]),
         'models': 1, 'rand': 0, 'q0': [w.raw(spec)]})
    L = sum(PDIM[t] for _, t in spec)
    ar = np.arange(1., L + 1)
    i = env.info
    jp, jv = [x for x, (n, t) in enumerate(spec) if t is PT.JOINT_POS], [x for x, (n, t) in enumerate(spec) if t is PT.JOINT_VEL]
    ev.append({'op': 'info', 'low': E(i.observation_space.low), 'high': E(i.observation_space.high), 'alow': E(i.action_space.low), 'ahigh': E(i.action_space.high),
               'rest': str([i.gamma, i.horizon, round(i.dt, 9)]), 'where': [[int(v) for v in env.get_sim_state(ar, n, t)] for n, t in spec]})
    off = np.cumsum([0] + [PDIM[t] for _, t in spec])
    ev.append({'op': 'data', 'got': [[int(v) for v in env.joints.positions(ar)], [int(v) for v in env.joints.velocities(ar)], E(env.joints.limits()[0]), E(env.joints.limits()[1]), E(env.joints.velocity_limits())],
               'want': [[int(off[x]) + 1 for x in jp], [int(off[x]) + 1 for x in jv], sum([ent[x]['lo'] for x in jp], []), sum([ent[x]['hi'] for x in jp], []), sum([ent[x]['hi'] for x in jv], [])]})
    kept, started = [], False
    for t in range(rng.randint(3, 14)):
        if not started or rng.random() < .2:
            st = np.array([float(rng.randint(0, 9))]) if rng.random() < .3 else None
            w.c.restoreState(w.s)
            env.n = 0
            x, inf = env.reset(st) if st is not None else env.reset()
            ev.append({'op': 'reset', 'given': [], 'raw': env.mine(), 'obs': E(x), 'm': 0, 't': 0, 'ctrl': [], 'inf': int(inf == {})})
            ev.append({'op': 'data', 'got': [[] if env.got is None else E(env.got)], 'want': [[] if st is None else E(st)]})
            started = True
        else:
            a = np.array([rng.randint(-8, 8) / 8 for _ in acts])
            a0 = E(a)
            env.hooks, env.on = [], True
            x, r, ab, inf = env.step(a)
            env.on = False
            ev.append({'op': 'step', 'a': a0, 'hooks': env.hooks, 'obs': E(x), 'r': int(r), 'ab': int(bool(ab)), 'inf': 0})
        kept.append((x, E(x)))
    ev.append({'op': 'kept', 'x': [E(x) for x, _ in kept], 'y': [y for _, y in kept]})
    env.client.disconnect()
    w.c.disconnect()


def run(seed):
    return [lambda: run_mj(seed, False), lambda: run_mj(seed, True), lambda: run_mj(seed, False), lambda: run_bullet(seed)][seed % 4]()


def check(chk):
    chk.model('MCPhysics', 'MCPhysics_thorough' if chk.thorough else 'MCPhysics')
    n = 10000 if chk.thorough else 1000
    chk.validate('TracePhysics', collect(lambda k: run(chk.seed * 100003 + k), range(n)))
