"""E01: finite environments and their generators."""
import os
import random
import shutil
import tempfile

import numpy as np

from mushroom_rl.environments import FiniteMDP, GridWorld, GridWorldVanHasselt
from mushroom_rl.environments.generators import generate_grid_world, generate_simple_chain, generate_taxi

from guard import guarded
from lib import collect, enc, encf


def split(rng, n, k):
    """k parts of n."""
    cut = sorted(rng.randint(0, n) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cut, cut + [n])]


def sid(x):
    assert x.shape == (1,), x.shape
    return int(x[0]) + 1


def hz(x):
    return 0 if np.isinf(x) else int(x)


def rand_mdp(rng):
    nS, nA = rng.choice([1, 2, 2, 3, 4]), rng.randint(1, 3)
    dead = [x for x in range(nS) if rng.random() < .2 and x > 0]
    p = [[[0] * nS if x in dead else split(rng, 16, nS) for _ in range(nA)] for x in range(nS)]
    for x in range(nS):
        if x not in dead and nA > 1 and rng.random() < .3:
            p[x][rng.randrange(nA)] = [0] * nS      # an action that cannot be taken does not make the state absorbing
    r = [[[rng.randint(-5, 5) for _ in range(nS)] for _ in range(nA)] for _ in range(nS)]
    return nS, nA, dead, p, r


def run_finite(seed):
    rng = random.Random(seed)
    np.random.seed(seed % (2 ** 31))
    ev = []
    if seed % 2 == 0:
        nS, nA, dead, p, r = rand_mdp(rng)
        mu = [] if rng.random() < .3 else split(rng, 16, nS)
        c = {'k': 'finite', 'p': p, 'r': r, 'mu': mu, 'n': nS, 'nA': nA, 'g': rng.randint(0, 16), 'hz': rng.choice([0, 5, 100])}
    else:
        h, w = rng.randint(1, 4), rng.randint(2, 5)
        cells = [(i, j) for i in range(h) for j in range(w)]
        st, go = rng.sample(cells, 2)
        k = rng.choice(['grid', 'vanhasselt'])
        c = {'k': k, 'h': h, 'w': w, 'start': [st[0] + 1, st[1] + 1], 'goal': [go[0] + 1, go[1] + 1], 'n': h * w, 'nA': 4,
             'g': 0 if k == 'grid' else 0, 'hz': 100 if k == 'grid' else 0}
        nS, nA = h * w, 4
    with guarded(ev, 60):
        if c['k'] == 'finite':
            kw = {} if not mu else {'mu': np.array(mu) / 16}
            if c['hz']:
                kw['horizon'] = c['hz']
            env = FiniteMDP(np.array(p) / 16, np.array(r, dtype=float), gamma=c['g'] / 16, **kw)
            g = env.info.gamma * 16
        else:
            A = rng.choice([tuple, np.array])
            env = (GridWorld if k == 'grid' else GridWorldVanHasselt)(height=h, width=w, goal=A(go), start=A(st))
            g = env.info.gamma - (.9 if k == 'grid' else .95)
        ev.append({'op': 'info', 'nS': env.info.observation_space.n, 'nA': env.info.action_space.n, 'g': enc(g), 'hz': hz(env.info.horizon)})

        def act(x):
            return rng.choice([a for a in range(nA) if c['k'] != 'finite' or any(p[x][a])])
        alive = False
        for _ in range(rng.randint(3, 30)):
            if not alive or rng.random() < .15:
                if rng.random() < .4:
                    x = rng.randrange(nS)
                    if c['k'] == 'finite' and x in dead:
                        continue
                    obs, _ = env.reset(np.array([x]))
                    ev.append({'op': 'reset', 'given': x + 1, 'obs': sid(obs)})
                else:
                    obs, _ = env.reset()
                    ev.append({'op': 'reset', 'given': 0, 'obs': sid(obs)})
                alive = not (c['k'] == 'finite' and sid(obs) - 1 in dead)
            if alive:
                a = act(sid(obs) - 1)
                obs, rew, ab, _ = env.step(np.array([a]))
                ev.append({'op': 'step', 'a': a + 1, 'obs': sid(obs), 'r': enc(rew), 'ab': int(ab)})
                alive = not ab
        if c['k'] == 'finite' and rng.random() < .5:
            n = 400
            live = [x for x in range(nS) if x not in dead]
            x = rng.choice(live)
            a = act(x)
            cnt = [0] * nS
            for _ in range(n):
                env.reset(np.array([x]))
                cnt[sid(env.step(np.array([a]))[0]) - 1] += 1
            ev.append({'op': 'freq', 'n': n, 'x': x + 1, 'a': a + 1, 'cnt': cnt})
            if mu or nS in (1, 2, 4):
                cnt = [0] * nS
                for _ in range(n):
                    cnt[sid(env.reset()[0]) - 1] += 1
                ev.append({'op': 'freq', 'n': n, 'x': 0, 'a': 0, 'cnt': cnt})
        if c['k'] == 'vanhasselt' and rng.random() < .3:
            cnt = 0
            for _ in range(400):
                env.reset()
                cnt += int(env.step(np.array([rng.randrange(4)]))[1] == 10)
            ev.append({'op': 'vhfreq', 'n': 400, 'cnt': cnt})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'finite %s seed=%d' % (c['k'], seed)}


def rand_map(rng, taxi):
    while True:
        h, w = rng.randint(1, 3), rng.randint(2, 4)
        m = [[rng.choice('..#' if taxi else '..#*') for _ in range(w)] for _ in range(h)]
        cells = [(i, j) for i in range(h) for j in range(w)]
        nF = rng.randint(1, 2) if taxi else 0
        nS, nG = rng.randint(1, 2), rng.randint(1, 2)
        if nF + nS + nG > len(cells):
            continue
        pick = rng.sample(cells, nF + nS + nG)
        for q in pick[:nF]:
            m[q[0]][q[1]] = 'F'
        for q in pick[nF:nF + nS]:
            m[q[0]][q[1]] = 'S'
        for q in pick[nF + nS:]:
            m[q[0]][q[1]] = 'G'
        return m, nF


def emit(op, env, c, scale):
    return {'op': op, 'n': env.info.observation_space.n, 'p': [[[encf(v, scale) for v in row] for row in x] for x in env.p],
            'r': [[[enc(v) for v in row] for row in x] for x in env.r], 'mu': [] if env.mu is None else [encf(v, 10000) for v in env.mu]}


def run_gen(seed, fixed=None):
    rng = random.Random(seed)
    k = ['gengrid', 'taxi', 'chain'][seed % 3]
    ev = []
    d = tempfile.mkdtemp(prefix='vgrid_')
    try:
        c = {'k': k, 'prob': rng.randint(0, 16), 'g': rng.randint(0, 16), 'hz': rng.choice([0, 7])}
        if k == 'chain':
            c['n'] = rng.randint(2, 5)
            c['goals'] = [x + 1 for x in rng.sample(range(c['n']), rng.randint(1, 2))]
            c['rew'] = rng.randint(1, 9)
        else:
            c['map'], nF = rand_map(rng, k == 'taxi')
            c['pos'], c['neg'], c['slip'] = rng.randint(1, 9), rng.randint(-9, -1), 0
            c['rew'] = [rng.randint(0, 9) for _ in range(nF + 1)]
        if fixed:
            c.update(fixed)
        with guarded(ev, 60):
            path = os.path.join(d, 'map.txt')
            if k != 'chain':
                open(path, 'w').write('\n'.join(''.join(row) for row in c['map']) + (rng.choice(['\n', '']) if not fixed else '\n'))
            kw = {'gamma': c['g'] / 16, 'horizon': c['hz'] or np.inf}
            if k == 'gengrid':
                env = generate_grid_world(path, c['prob'] / 16, c['pos'], c['neg'], **kw)
                ev.append(emit('grid', env, c, 16))
            elif k == 'taxi':
                env = generate_taxi(path, c['prob'] / 16, tuple(c['rew']), **kw)
                ev.append(emit('taxi', env, c, 32))
            else:
                env = generate_simple_chain(c['n'], [x - 1 for x in c['goals']], c['prob'] / 16, c['rew'], **kw)
                ev.append(emit('chain', env, c, 16))
            c['nA'] = 2 if k == 'chain' else 4
            n = c.get('n', env.p.shape[0])
            c['n'] = n
            ev.append({'op': 'info', 'nS': env.info.observation_space.n, 'nA': env.info.action_space.n, 'g': enc(env.info.gamma * 16), 'hz': hz(env.info.horizon)})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'generator %s seed=%d' % (k, seed)}


def slipped(tr):
    """The rewards of the fixed map are those known: only the two slips into the goal without reward are wrong."""
    r = tr['ev'][0]['r']
    # cells: F=0, S=1, .=2, G=3; states 4..7 have the passenger
    return r[1][1][3] == 3 and r[5][1][7] == 7 and r[2][3][3] == 3 and r[6][3][7] == 7 and \
        r[1][2][3] == r[1][3][3] == r[2][0][3] == r[2][1][3] == r[5][2][7] == r[5][3][7] == r[6][0][7] == r[6][1][7] == 0


def check(chk):
    chk.model('MCFiniteEnv', 'MCFiniteEnv_thorough' if chk.thorough else 'MCFiniteEnv')
    n = 5000 if chk.thorough else 600
    chk.validate('TraceFiniteEnv', collect(lambda k: run_finite(chk.seed * 100103 + k), range(n)))
    chk.validate('TraceFiniteEnv', collect(lambda k: run_gen(chk.seed * 100103 + k), range(n // 2)))
    # known: the goal entered by slipping gives no reward
    fixed = {'map': [['F', 'S'], ['.', 'G']], 'prob': 8, 'slip': 1, 'rew': [3, 7]}
    chk.validate('TraceFiniteEnv', [run_gen(1, fixed)], keyfn=lambda tr, n, cl: 'taxi-slip-into-the-goal'
                 if cl == ['Rewards'] and slipped(tr) else None)
