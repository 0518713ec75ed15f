"""E02: the solvers."""
import random

import numpy as np

from mushroom_rl.environments import LQR
from mushroom_rl.solvers.car_on_hill import solve_car_on_hill
from mushroom_rl.solvers.dynamic_programming import policy_iteration, value_iteration
from mushroom_rl.solvers.lqr import (compute_lqr_feedback_gain, compute_lqr_P, compute_lqr_Q, compute_lqr_Q_gaussian_policy,
                                     compute_lqr_Q_gaussian_policy_gradient_K, compute_lqr_V, compute_lqr_V_gaussian_policy,
                                     compute_lqr_V_gaussian_policy_gradient_K)

from guard import guarded
from lib import collect, encf
from p_finite import rand_mdp


def run_dp(seed):
    rng = random.Random(seed)
    nS, nA, _, p, r = rand_mdp(rng)
    if rng.random() < .4:      # nearly tied actions
        base = rng.choice([20, 50, -50])
        r = [[[base + z for z in y] for y in x] for x in r]
    c = {'k': 'dp', 'n': nS, 'nA': nA, 'p': p, 'r': r, 'g': rng.randint(0, 15)}
    ev = []
    with guarded(ev, 60):
        P, Rw = np.array(p) / 16, np.array(r, dtype=float)
        P0, R0 = P.copy(), Rw.copy()
        eps = rng.choice([1e-1, 1e-3, 1e-6])
        V = value_iteration(P, Rw, c['g'] / 16, eps)
        ev.append({'op': 'vi', 'V': [encf(v, 10000) for v in V], 'tol': int(round(eps * 10000))})
        V, pi = policy_iteration(P, Rw, c['g'] / 16)
        ev.append({'op': 'pi', 'V': [encf(v, 10000) for v in V], 'pi': [int(a) + 1 for a in pi]})
        ev.append({'op': 'same', 'same': int(np.array_equal(P, P0) and np.array_equal(Rw, R0))})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'dynamic programming seed=%d' % seed}


class Tree:
    """Stand-in for the car: a graph whose edges give -1, 0 or 1."""

    def __init__(self, t):
        self.t = t

    def reset(self, state=None):
        self.x = int(state[0])
        return np.array([self.x]), {}

    def step(self, action):
        y, r = self.t[self.x][int(action[0])]
        self.x = y
        return np.array([y]), float(r), r != 0, {}


def run_car(seed):
    rng = random.Random(seed)
    n = rng.randint(1, 8)
    pr = rng.choice([.05, .1, .3])
    t = [[(rng.randrange(n), rng.choice([-1, -1, 1]) if rng.random() < 3 * pr else 0) for _ in range(2)] for _ in range(n)]
    c = {'k': 'car', 't': [[[y + 1, r] for y, r in row] for row in t], 'g': rng.randint(1, 16)}
    ev = []
    with guarded(ev, 60):
        k = rng.randint(1, 6)
        xs, acts = [rng.randrange(n) for _ in range(k)], [rng.randrange(2) for _ in range(k)]
        top = rng.randint(2, 7)
        q = solve_car_on_hill(Tree(t), np.array(xs).reshape(-1, 1), np.array(acts).reshape(-1, 1), c['g'] / 16, max_k=top)
        ev.append({'op': 'car', 'x': [x + 1 for x in xs], 'a': [a + 1 for a in acts], 'q': [encf(v, 10 ** 6) for v in q], 'top': top})
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'car on hill solver seed=%d' % seed}


def sym(rng, d):
    """Symmetric, diagonally dominant, in quarters."""
    m = [[0] * d for _ in range(d)]
    for i in range(d):
        m[i][i] = rng.randint(2, 8)
    if d == 2 and rng.random() < .5:
        m[0][1] = m[1][0] = rng.choice([-1, 1])
    return m


def run_lqr(seed):
    rng = random.Random(seed)
    ev = []
    n, m = rng.randint(1, 2), rng.randint(1, 2)
    c = {'k': 'lqr', 'g': rng.choice([8, 12, 14]), 'Q': sym(rng, n), 'R': sym(rng, m)}
    A = np.array([[rng.randint(-3, 4) for _ in range(n)] for _ in range(n)]) / 4
    B = np.array([[rng.randint(-4, 4) for _ in range(m)] for _ in range(n)]) / 4
    K = np.array([[rng.randint(-2, 4) for _ in range(n)] for _ in range(m)]) / 8
    L = np.array([[rng.choice([0, 1, 2]) if j < i else rng.choice([1, 2, 3]) if i == j else 0 for j in range(m)] for i in range(m)]) / 2
    S = L @ L.T
    g = c['g'] / 16
    with guarded(ev, 60):
        lqr = LQR(A, B, np.array(c['Q']) / 4, np.array(c['R']) / 4, gamma=g)
        s = [rng.randint(-3, 3) for _ in range(n)]
        a = [rng.randint(-3, 3) for _ in range(m)]
        s1, a1 = np.array(s, dtype=float), np.array(a, dtype=float)
        s2 = A @ s1 + B @ a1
        # the closed loop must not be close to the limit of stability, where values are not representable
        if g * max(abs(np.linalg.eigvals(A - B @ K))) ** 2 < .9:
            batch = rng.random() < .5

            def two(f, x, y=None):
                """Value on a single state or as the last of a batch."""
                if not batch:
                    return np.asarray(f(*(z for z in (x, y) if z is not None))).reshape(-1)
                xs = np.stack([x + 1, x])
                out = f(xs) if y is None else f(xs, np.stack([y - 2, y]))
                assert out.shape[0] == 2
                return np.asarray(out[1]).reshape(-1)
            V = lambda x, k=K: two(lambda z: compute_lqr_V(z, lqr, k), x)[0]
            Q = lambda x, y, k=K: two(lambda z, w: compute_lqr_Q(z, w, lqr, k), x, y)[0]
            GV = lambda x, k=K: two(lambda z: compute_lqr_V_gaussian_policy(z, lqr, k, S), x)[0]
            GQ = lambda x, y, k=K: two(lambda z, w: compute_lqr_Q_gaussian_policy(z, w, lqr, k, S), x, y)[0]
            api = -K @ s1
            dv = two(lambda z: compute_lqr_V_gaussian_policy_gradient_K(z, lqr, K, S), s1)
            dq = two(lambda z, w: compute_lqr_Q_gaussian_policy_gradient_K(z, w, lqr, K, S), s1, a1)
            E3 = lambda v: encf(v, 1000)
            E5 = lambda v: encf(v, 10 ** 5)
            h = 1 / 64
            fv, fq = [], []
            for i in range(m * n):
                d = np.zeros(m * n)
                d[i] = h
                d = d.reshape(m, n)
                fv.append([E5(GV(s1, K + d) - GV(s1, K - d)), E5(GV(s1, K + 2 * d) - GV(s1, K - 2 * d))])
                fq.append([E5(GQ(s1, a1, K + d) - GQ(s1, a1, K - d)), E5(GQ(s1, a1, K + 2 * d) - GQ(s1, a1, K - 2 * d))])
            e = {'op': 'lqr', 's': s, 'a': a, 'q': E3(Q(s1, a1)), 'vn': E3(V(s2)), 'v': E3(V(s1)), 'qpi': E3(Q(s1, api)),
                 'gq': E3(GQ(s1, a1)), 'gvn': E3(GV(s2)), 'gv': E3(GV(s1)),
                 'gqs': {'m': E3(GQ(s1, api)), 'pm': [[E3(GQ(s1, api + L[:, i])), E3(GQ(s1, api - L[:, i]))] for i in range(m)]},
                 'dv': [E5(v) for v in dv], 'dq': [E5(v) for v in dq], 'fv': fv, 'fq': fq}
            flat = [abs(x) for x in (e['q'], e['vn'], e['gq'], e['gv'], e['gvn'], e['gqs']['m'])] + [abs(x) for z in e['gqs']['pm'] for x in z]
            if max(flat) < 10 ** 7 and max(abs(x) for f in (fv, fq) for z in f for x in z) < 4 * 10 ** 6 and max(abs(x) for x in e['dv'] + e['dq']) < 10 ** 8:
                ev.append(e)
        Ks = compute_lqr_feedback_gain(lqr)
        if g * max(abs(np.linalg.eigvals(A - B @ Ks))) ** 2 < .9:
            q = lambda da: float(np.squeeze(compute_lqr_Q(s1, -Ks @ s1 + da, lqr, Ks)))
            alts = [np.array([rng.randint(-4, 4) / 4 for _ in range(m)]) for _ in range(6)]
            e = {'op': 'gain', 'q': encf(q(np.zeros(m)), 1000), 'alt': [encf(q(d), 1000) for d in alts]}
            if abs(e['q']) < 10 ** 7:
                ev.append(e)
    ev.append({'op': 'end'})
    return {'cfg': c, 'ev': ev, 'kind': 'lqr solver seed=%d' % seed}


def check(chk):
    chk.model('MCSolve', 'MCSolve_thorough' if chk.thorough else 'MCSolve')
    n = 5000 if chk.thorough else 600
    for f in (run_dp, run_car, run_lqr):
        chk.validate('TraceSolve', collect(lambda k: f(chk.seed * 100103 + k), range(n)))
