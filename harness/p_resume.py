"""S02: an agent that is saved, loaded or copied goes on as if nothing had happened."""
import copy
import os
import random
import shutil
import tempfile

import numpy as np
import torch
from sklearn.exceptions import NotFittedError

from mushroom_rl.core import Agent, Core
from mushroom_rl.rl_utils.preprocessors import StandardizationPreprocessor
from mushroom_rl.rl_utils.parameters import Parameter

import agents
from guard import guarded
from lib import collect, encf


def seed_all(sd):
    random.seed(sd)
    np.random.seed(sd)
    torch.manual_seed(sd)


SC = 100000


def digest(xs):
    out = [encf(x, SC) for x in xs]
    return out[:24] + [len(out), sum((k + 1) * v for k, v in enumerate(out[24:])) % 1000003]



PROBE = np.array([[0.5, -1.], [-1.5, 2.], [0., 0.25]])


def learned(agent, env):
    """what the agent has learned, through the public interface"""
    out = []
    pi = agent.policy
    if hasattr(agent, 'distribution'):
        out += list(np.asarray(torch.as_tensor(agent.distribution.get_parameters()).detach()).ravel())
    elif hasattr(pi, 'get_q') and pi.get_q() is not None:
        xs = np.arange(5).reshape(5, 1) if env.kind == 'tab' else PROBE
        try:
            out += [v for x in xs for v in np.asarray(pi.get_q().predict(x if env.kind == 'tab' else x[None])).ravel()]
        except NotFittedError:
            pass
    elif hasattr(pi, 'get_weights'):
        out += list(np.asarray(torch.as_tensor(pi.get_weights()).detach()).ravel())
    return [min(max(float(v), -1e4), 1e4) for v in out]


def run(seed):
    rng = random.Random(seed)
    name = agents.ALL[seed % len(agents.ALL)]
    ev, ag, envs, files = [], [], [], []
    d = tempfile.mkdtemp(prefix='vres_')
    try:
        with guarded(ev, 60):
            seed_all(seed % 1000003)
            a, env, lp = agents.build(name, rng)
            if env.kind != 'tab' and rng.random() < .3:
                a.add_core_preprocessor(StandardizationPreprocessor(env.info, "numpy"))
            ag.append(a)
            envs.append(env)
            ev.append({'op': 'new'})
            seeds = [rng.randint(1, 10 ** 6) for _ in range(2)]

            def use(k, op, sd):
                seed_all(sd)
                core = Core(ag[k], envs[k])
                envs[k].log = []
                if op == 'learn':
                    core.learn(quiet=True, **lp)
                else:
                    core.evaluate(n_steps=5, quiet=True)
                ev.append({'op': op, 'd': k + 1, 'sd': sd, 'x': digest(envs[k].log + learned(ag[k], envs[k]))})

            # histories of the same length on several incarnations, so that many of them coincide
            once = name in ('DoubleFQI', 'BoostedFQI')         # made to be fitted on a single dataset
            for _ in range(1 if once else rng.randint(1, 3)):
                use(0, 'learn', seeds[0])
            if name in agents.BATCH:
                a.policy.set_epsilon(Parameter(.5))
            plan = [rng.choice(['learn', 'learn', 'eval']) for _ in range(rng.randint(2, 4))]
            if 'learn' not in plan:
                plan[0] = 'learn'
            if once:
                plan = ['eval'] * len(plan)
            plan.append('eval')

            def load(f):
                ag.append(Agent.load(files[f][0]))
                envs.append(copy.deepcopy(files[f][1]))
                ev.append({'op': 'load', 'f': f + 1})

            for r in range(rng.randint(1, 2)):
                how = rng.choice(['full', 'full', 'full', 'part', 'copy'])
                if how == 'copy':
                    ag.append(ag[0].copy())
                    envs.append(copy.deepcopy(envs[0]))
                    ev.append({'op': 'copy', 'd': 1})
                else:
                    p = os.path.join(d, 'a%d' % len(files))
                    ag[0].save(p, full_save=how == 'full')
                    files.append((p, copy.deepcopy(envs[0])))
                    ev.append({'op': 'save', 'd': 1, 'full': int(how == 'full')})
                    load(len(files) - 1)
            order = list(range(len(ag)))
            rng.shuffle(order)
            steps = [(k, t) for t in range(len(plan)) for k in order] if rng.random() < .5 else \
                [(k, t) for k in order for t in range(len(plan))]
            cut = {k for k in range(len(ag)) if any(e['op'] == 'save' and not e['full'] for e in ev) and k > 0}
            for k, t in steps:
                if plan[t] == 'learn' and k in cut and 'eval' not in plan[:t]:
                    # a partial save promises only the behaviour: evaluate it instead, once
                    continue
                if plan[t] == 'learn' and k in cut:
                    continue
                use(k, plan[t], seeds[1] + t)
            if files and rng.random() < .5:
                f = rng.randrange(len(files))
                load(f)
                if not (ev[-1]['op'] == 'load' and any(e['op'] == 'save' and not e['full'] for e in ev)):
                    for t in range(len(plan)):
                        use(len(ag) - 1, plan[t], seeds[1] + t)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ev.append({'op': 'end'})
    return {'cfg': {'alg': name}, 'ev': ev, 'kind': 'resume %s seed=%d' % (name, seed)}


def check(chk):
    chk.model('MCResume', 'MCResume_thorough' if chk.thorough else 'MCResume')
    n = len(agents.ALL) * (60 if chk.thorough else 12)
    chk.validate('TraceResume', collect(lambda k: run(chk.seed * len(agents.ALL) * 1000 + k), range(n), max_bad=12, budget=500))
