"""C01-C03: the run loop (Core). Scripted environment/agent/preprocessors log every boundary event; TLC validates."""
import random

import numpy as np
import torch

from mushroom_rl.core import Agent, Core, Environment, MDPInfo
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box

from guard import Hang, from_repo, limit
from lib import NAN, enc, flag


def val(x):
    """id carried by an array of one element; -1 for None"""
    if x is None:
        return -1
    return enc(x)


class Ids:
    """Fresh identifiers; or, when small is given, values of a small alphabet so that observations and actions repeat."""

    def __init__(self, small=None):
        self.n, self.small = 0, small

    def __call__(self):
        if self.small is not None:
            return self.small.randint(0, 3)
        self.n += 1
        return self.n


class ScriptEnv(Environment):
    def __init__(self, log, ids, horizon, backend, script, rewards=None, info_keys=('k',)):
        dt = torch.float32 if backend == 'torch' else float
        obs = Box(-1e6, 1e6, shape=(1,), data_type=dt)
        act = Box(-1e6, 1e6, shape=(1,), data_type=dt)
        super().__init__(MDPInfo(obs, act, 0.5, horizon, backend=backend))
        self.log, self.ids, self.script, self.backend = log, ids, script, backend
        self.calls = 0
        self.pos = 0

    def arr(self, v):
        if self.backend == 'torch':
            return torch.tensor([float(v)])
        return np.array([float(v)])

    def reset(self, state=None):
        arg = val(state)
        v = self.ids() if state is None else arg
        self.log({'op': 'reset', 'arg': arg, 'ret': v})
        return self.arr(v), {'e': v}

    def step(self, action):
        ab = self.script()
        v = self.ids()
        r = self.ids() % 7 - 3
        k = self.ids()
        self.log({'op': 'step', 'a': val(action), 'ret': v, 'r': r, 'ab': int(ab), 'info': k})
        return self.arr(v), float(r), bool(ab), {'k': float(k)}

    def render(self, record=False):
        self.log({'op': 'render', 'record': int(bool(record))})
        return np.zeros((2, 2, 3), dtype=np.uint8) if record else None

    def stop(self):
        self.log({'op': 'estop'})


class ScriptPolicy(Policy):
    def __init__(self, ids, arr, stateful):
        super().__init__((1,) if stateful else None)
        self.ids, self.arr = ids, arr

    def reset(self):
        return self.arr(self.ids()) if self.is_stateful else None

    def draw_action(self, state, policy_state):
        return self.arr(self.ids()), (self.arr(self.ids()) if self.is_stateful else None)


class ScriptAgent(Agent):
    def __init__(self, info, log, ids, episodic, stateful, backend, rng, use_next_action):
        self.log, self.ids, self.rng, self.una = log, ids, rng, use_next_action
        self.bk = backend
        super().__init__(info, ScriptPolicy(ids, self.arr, stateful), is_episodic=episodic, backend=backend)
        self.kept = None

    def arr(self, v):
        return torch.tensor([float(v)]) if self.bk == 'torch' else np.array([float(v)])

    def episode_start(self, initial_state, episode_info):
        ps, th = super().episode_start(initial_state, episode_info)
        t = self.ids()
        self.log({'op': 'epstart', 'ps': val(ps), 'th': t, 'info': int(episode_info.get('e', NAN))})
        return ps, (np.array([float(t)]) if self.info.is_episodic else None)

    def draw_action(self, state, policy_state=None):
        na = val(self.next_action)
        a, nps = super().draw_action(state, policy_state)
        self.log({'op': 'draw', 'x': val(state), 'ps': val(policy_state), 'a': val(a), 'nps': val(nps), 'na': na})
        return a, nps

    def fit(self, dataset):
        smps, infos = content(dataset)
        stable = 1
        if self.kept is not None:
            views, copy = self.kept
            stable = int(copy == snapshot(views))
        inf = dict(dataset.info)
        views = (dataset.state, dataset.action, dataset.reward, dataset.next_state, dataset.absorbing, dataset.last,
                 dataset.theta_list, inf['k'] if 'k' in inf else [])
        if dataset.is_stateful:
            views += (dataset.policy_state, dataset.policy_next_state)
        self.kept = (views, snapshot(views))
        th = [val(t) for t in dataset.theta_list] if self.info.is_episodic else []
        if self.una and self.rng.random() < 0.5:
            self.next_action = self.arr(self.ids())
        self.log({'op': 'fit', 'smps': smps, 'infos': infos, 'th': th, 'na': val(self.next_action), 'stable': stable,
                  'ne': int(dataset.n_episodes)})

    def stop(self):
        self.log({'op': 'astop'})


def snapshot(views):
    return [[enc(x) for x in v] for v in views]


def content(dataset):
    n = len(dataset)
    st, ac, re, ns, ab, la = (dataset.state, dataset.action, dataset.reward, dataset.next_state, dataset.absorbing,
                              dataset.last)
    if dataset.is_stateful:
        ps, nps = dataset.policy_state, dataset.policy_next_state
    else:
        ps = nps = [None] * n
    smps = [[val(st[i]), val(ac[i]), enc(re[i]), val(ns[i]), flag(ab[i]), flag(la[i]), val(ps[i]), val(nps[i])]
            for i in range(n)]
    dataset.info.parse()
    d = dict(dataset.info)
    infos = [enc(x) for x in d['k']] if 'k' in d else ([] if n == 0 else [NAN])
    return smps, infos


class ScriptPre:
    def __init__(self, k, mul, add, log):
        self.k, self.mul, self.add, self.log = k, mul, add, log

    def update(self, x):
        self.log({'op': 'preu', 'k': self.k, 'x': val(x)})

    def __call__(self, x):
        self.log({'op': 'prec', 'k': self.k, 'x': val(x)})
        return x * self.mul + self.add


def make_recorder(log):
    class Rec:
        def __init__(self, fps=None, **kw):
            self.stopped = 0

        def __call__(self, frame):
            log({'op': 'rec'})

        def stop(self):
            pass
    return Rec


def run_scenario(sc, rng):
    """sc: dict(H, K, P, epi, sful, eb, ab, calls=[...], script=fn). Returns a trace."""
    ev = []
    limit_ev = 4000

    def log(e):
        if len(ev) > limit_ev:
            raise Hang('too many events')
        ev.append(e)
    ids = Ids(sc.get('small'))
    env = ScriptEnv(log, ids, sc['H'] if sc['H'] > 0 else np.inf, sc['eb'], sc['script'])
    agent = ScriptAgent(env.info, log, ids, bool(sc['epi']), bool(sc['sful']), sc['ab'], rng, sc.get('una', False))
    for k, (m, a) in enumerate(sc['P'], 1):
        agent.add_core_preprocessor(ScriptPre(k, m, a, log))

    def cb(sample):
        log({'op': 'cb', 'smp': [val(sample[0]), val(sample[1]), enc(sample[2]), val(sample[3]), flag(sample[4]),
                                 flag(sample[5]), val(sample[6]), val(sample[7])]})

    def mk(k):
        def f(dataset):
            log({'op': 'cbfit', 'k': k, 'smps': content(dataset)[0]})
        return f
    core = Core(agent, env, callbacks_fit=[mk(k) for k in range(1, sc['K'] + 1)], callback_step=cb,
                record_dictionary=dict(recorder_class=make_recorder(log), fps=10))
    for call in sc['calls']:
        e = dict(call, op='call')
        ev.append(e)
        kw = {}
        if call['ns'] != -1:
            kw['n_steps'] = call['ns']
        if call['ne'] != -1:
            kw['n_episodes'] = call['ne']
        kw['render'] = bool(call['render'])
        kw['record'] = bool(call['record'])
        kw['quiet'] = True
        try:
            with limit(30):
                if call['mode'] == 'learn':
                    if call['spf'] != -1:
                        kw['n_steps_per_fit'] = call['spf']
                    if call['epf'] != -1:
                        kw['n_episodes_per_fit'] = call['epf']
                    core.learn(**kw)
                    ev.append({'op': 'ret', 'smps': [], 'infos': []})
                else:
                    if call['hasinit']:
                        kw['initial_states'] = [env.arr(v) for v in call['inits']]
                    d = core.evaluate(**kw)
                    smps, infos = content(d)
                    ev.append({'op': 'ret', 'smps': smps, 'infos': infos})
        except Hang as x:
            ev.append({'op': 'raise', 'what': str(x)})
            break
        except Exception as x:
            if not from_repo(x):
                raise
            ev.append({'op': 'raise', 'what': repr(x)[:300]})
            if call_valid(call):
                break
    ev.append({'op': 'end'})
    cfg = {'H': sc['H'], 'K': sc['K'], 'P': sc['P'], 'epi': int(sc['epi']), 'sful': int(sc['sful'])}
    return {'cfg': cfg, 'ev': ev, 'kind': 'core eb=%s ab=%s' % (sc['eb'], sc['ab'])}


def call_valid(c):
    n = (c['ns'] != -1) + (c['ne'] != -1) + c['hasinit']
    ok = n == 1 and (not c['record'] or c['render'])
    if c['mode'] == 'learn':
        ok = ok and ((c['spf'] != -1) != (c['epf'] != -1)) and not c['hasinit']
    return ok


def rand_call(rng, H, big):
    N = 30 if big else 9
    c = {'mode': 'learn' if rng.random() < 0.7 else 'evaluate', 'ns': -1, 'ne': -1, 'hasinit': 0, 'inits': [], 'spf': -1,
         'epf': -1, 'render': 0, 'record': 0}
    fin = H > 0
    if c['mode'] == 'learn':
        if not fin or rng.random() < 0.5:
            c['spf'] = rng.randint(1, 7)
        else:
            c['epf'] = rng.randint(1, 3)
    r = rng.random()
    if not fin or r < 0.5:
        c['ns'] = rng.randint(0, N)
    elif r < 0.8 or c['mode'] == 'learn':
        c['ne'] = rng.randint(0, 6 if big else 4)
    else:
        c['hasinit'] = 1
        c['inits'] = [900000 + 10 * i + rng.randint(0, 9) for i in range(rng.randint(1, 5))]
    if rng.random() < 0.15:
        c['render'] = 1
        c['record'] = rng.randint(0, 1)
    if rng.random() < 0.06:            # invalid budgets must be refused before touching the environment
        k = rng.randint(0, 3)
        if k == 0:
            c['ns'] = c['ne'] = -1
            c['hasinit'], c['inits'] = 0, []
        elif k == 1 and fin:
            c['ns'], c['ne'] = 3, 2
        elif k == 2 and c['mode'] == 'learn':
            c['spf'], c['epf'] = (2, 2) if fin else (-1, -1)
        else:
            c['render'], c['record'] = 0, 1
    return c


BACKENDS = [('numpy', 'numpy'), ('numpy', 'torch'), ('torch', 'torch'), ('list', 'numpy')]


def rand_scenario(rng, big=False):
    H = rng.choice([0, 1, 2, 3, 4, 5, 7])
    eb, ab = rng.choice(BACKENDS)
    sful = rng.random() < 0.3 and eb != 'list'
    p = rng.choice([0.0, 0.1, 0.3, 0.6])
    sc = dict(H=H, K=rng.choice([0, 0, 1, 2]), P=rng.choice([[], [], [[1, 1000]], [[1, 1000], [2, 0]], [[3, 0], [1, 5], [1, -7]]]),
              epi=rng.random() < 0.4, sful=sful, eb=eb, ab=ab, script=lambda: rng.random() < p,
              una=(not sful) and rng.random() < 0.3)
    if rng.random() < 0.3:
        sc['small'] = random.Random(rng.random())
        sc['P'] = rng.choice([[], [[2, 0]], [[2, -1]], [[-1, 2], [1, 1]], [[1, 0]]])
    sc['calls'] = [rand_call(rng, H, big) for _ in range(rng.randint(1, 4))]
    return sc


def replay_behaviour(b, i):
    """Replay a behaviour generated by TLC (MCCore): same configuration, same environment answers."""
    script = [x for call in b['script'] for x in call]
    it = iter(script)
    over = []

    def nxt():
        try:
            return next(it)
        except StopIteration:
            over.append(1)
            return 1
    eb, ab = BACKENDS[i % 4]
    sc = dict(H=b['H'], K=b['K'], P=b['P'], epi=b['epi'], sful=0, eb=eb, ab=ab, calls=b['calls'], script=nxt)
    tr = run_scenario(sc, random.Random(0))
    # expected observations fixed by the model
    fits, lasts = [], []
    for e in tr['ev']:
        if e['op'] == 'call':
            fits.append([])
            lasts.append([])
        elif e['op'] == 'fit':
            fits[-1].append(len(e['smps']))
        elif e['op'] == 'cb':
            lasts[-1].append(e['smp'][5])
    ok = not over and fits == b['fits'] and lasts == b['lasts'] and not any(e['op'] == 'raise' for e in tr['ev'])
    return tr, ok


C01 = {'CallWhileRunning', 'ResetAtEpisodeStart', 'BudgetExceeded', 'ResetMidEpisode', 'InitialStateInOrder',
       'ResetBeforeFirstStep', 'DrawOncePerStep', 'StepFollowsDraw', 'StoppedBeforeBudget', 'ReturnAfterStop',
       'AgentStopOnce', 'EnvStopOnce', 'UnexpectedException', 'InvalidBudgetRejected', 'RunNotFinished',
       'EvaluateReturnsEveryTransition', 'EvaluateReturnsStepInfo', 'RenderOncePerStep', 'RenderRecordFlag',
       'RecordedOncePerFrame', 'OUTSIDE_SPEC_DOMAIN', 'EpisodeStartOnlyAfterReset', 'EpisodeStartOnce', 'EpisodeStartNotified',
       'TransitionFaithful'}
C02 = {'StepCallbackOnce', 'FitExactlyWhenDue', 'FitReceivesEachTransitionOnceInOrder', 'FitReceivesStepInfo',
       'FitReceivesEpisodeParameters', 'FitCallbacksOnceInOrder', 'FitCallbackSeesFittedData', 'FittedDataStable',
       'UnexpectedException', 'RunNotFinished', 'OUTSIDE_SPEC_DOMAIN'}
C03 = {'EpisodeStartOnlyAfterReset', 'EpisodeStartOnce', 'EpisodeInfoForwarded', 'PreprocessorOncePerObservation',
       'PreprocessorOrder', 'PreprocessorInput', 'EpisodeStartNotified', 'ObservationPreprocessed', 'AgentSeesCurrentState',
       'PolicyStateChained', 'PendingActionClearedAtReset', 'PendingActionUsed', 'ActionExecutedIsActionDrawn',
       'TransitionFaithful', 'UnexpectedException', 'OUTSIDE_SPEC_DOMAIN', 'FitReceivesEachTransitionOnceInOrder',
       'EvaluateReturnsEveryTransition', 'StepFollowsDraw', 'DrawOncePerStep'}


def check(chk):
    rng = random.Random(chk.seed * 7919 + {'C01': 1, 'C02': 2, 'C03': 3}[chk.prop])
    beh = chk.generated('MCCore', 'MCCore_thorough' if chk.thorough else 'MCCore', workers=4)
    rng.shuffle(beh)
    if not chk.thorough:
        beh = beh[:2500]
    traces = []
    hangs = 0
    for i, b in enumerate(beh):
        if hangs >= 3:
            break
        tr, ok = replay_behaviour(b, i)
        chk.replay()
        if not ok:
            chk.violation('replay', 'a behaviour of MCCore replayed into the real loop gives other episode ends or fit batches',
                          {'behaviour': b, 'trace': tr})
        hangs += any(e['op'] == 'raise' and 'time limit' in e['what'] for e in tr['ev'])
        tr['kind'] = 'mc ' + tr['kind']
        traces.append(tr)
    for i in range(600 if not chk.thorough else 6000):
        if hangs >= 3:
            break
        tr = run_scenario(rand_scenario(rng, big=chk.thorough or i % 10 == 0), rng)
        hangs += any(e['op'] == 'raise' and 'time limit' in e['what'] for e in tr['ev'])
        traces.append(tr)
    chk.traces -= chk.replayed
    only = {'C01': C01, 'C02': C02, 'C03': C03}[chk.prop]
    for t in traces:
        t['only'] = only
    chk.validate('TraceCore', traces)
    chk.assumptions += ['environment, agent, policy and preprocessors are scripted stand-ins that follow the public interfaces']
