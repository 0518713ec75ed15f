"""Small instances of every algorithm of the library, built as a user would."""
import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
import torch.optim as optim

from mushroom_rl.algorithms.actor_critic import (A2C, COPDAC_Q, DDPG, PPO, PPO_BPTT, SAC, TD3, TRPO, StochasticAC,
                                                 StochasticAC_AVG)
from mushroom_rl.algorithms.policy_search import (GPOMDP, MORE, PGPE, REINFORCE, REPS, RWR, ConstrainedREPS, eNAC, ePPO)
from mushroom_rl.algorithms.value import (DQN, FQI, LSPI, SARSA, AveragedDQN, BoostedFQI, CategoricalDQN, DoubleDQN,
                                          DoubleFQI, DoubleQLearning, DuelingDQN, ExpectedSARSA, MaxminDQN,
                                          MaxminQLearning, NoisyDQN, QLambda, QLearning, QuantileDQN, Rainbow, RLearning,
                                          RQLearning, SARSALambda, SARSALambdaContinuous, SpeedyQLearning,
                                          TrueOnlineSARSALambda, WeightedQLearning)
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.distributions import GaussianCholeskyDistribution, GaussianDiagonalDistribution
from mushroom_rl.distributions.torch_distribution import DiagonalGaussianTorchDistribution
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.policy import (Boltzmann, ClippedGaussianPolicy, DeterministicPolicy, EpsGreedy, GaussianPolicy,
                                GaussianTorchPolicy, OrnsteinUhlenbeckPolicy, StateLogStdGaussianPolicy,
                                StateStdGaussianPolicy)
from mushroom_rl.policy.recurrent_torch_policy import RecurrentGaussianTorchPolicy
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete


class Toy(Environment):
    """Small deterministic environment: kind 'tab' (5 states), 'disc' or 'cont' (two dimensional states)."""

    def __init__(self, kind, horizon=6, gamma=0.9):
        self.kind = kind
        obs = Discrete(5) if kind == 'tab' else Box(np.array([-4., -4.]), np.array([4., 4.]))
        act = Box(np.array([-1.]), np.array([1.])) if kind == 'cont' else Discrete(3)
        super().__init__(MDPInfo(obs, act, gamma, horizon))
        self.k = 0
        self.log = []

    def reset(self, state=None):
        self.k += 1
        if self.kind == 'tab':
            self._s = np.array([self.k % 5])
        else:
            self._s = np.array([((self.k * 7) % 5 - 2) / 2, ((self.k * 3) % 7 - 3) / 2])
        return self._s, {}

    def step(self, action):
        a = float(np.asarray(action).ravel()[0])
        self.log.append(a)
        if self.kind == 'tab':
            s = int(self._s[0])
            self._s = np.array([(s + int(a) + 1) % 5])
            return self._s, float(s - a), bool(s == 4 and a == 0), {}
        if self.kind == 'disc':
            a = a - 1
        a = float(np.clip(a, -3, 3))
        self._s = np.clip(np.array([0.8 * self._s[0] + 0.3 * self._s[1] + a, 0.5 * a - 0.4 * self._s[0]]), -4, 4)
        return self._s, float(-(self._s ** 2).sum() / 8 + a / 4), bool(abs(self._s[0]) > 2.5), {}


class QNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()
        self._h = nn.Linear(input_shape[-1], output_shape[0])

    def forward(self, state, action=None):
        q = torch.tanh(self._h(state.float()))
        return q if action is None else torch.squeeze(q.gather(1, action.long()))


class FeatNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()

    def forward(self, state, action=None):
        return state.float()


class SNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()
        self._h = nn.Linear(input_shape[-1], output_shape[0])

    def forward(self, state, **kwargs):
        return torch.tanh(self._h(state.float()))


class SANet(nn.Module):
    def __init__(self, input_shape, output_shape, **kwargs):
        super().__init__()
        self._h = nn.Linear(input_shape[-1], output_shape[0])

    def forward(self, state, action):
        return torch.squeeze(self._h(torch.cat((state.float(), action.float()), dim=1)))


class RecNet(nn.Module):
    """recurrent actor (returns mean and hidden state)"""

    def __init__(self, input_shape, output_shape, dim_env_state=2, hid=3, **kwargs):
        super().__init__()
        self._in = nn.Linear(dim_env_state, hid)
        self._hh = nn.Linear(hid, hid)
        self._out = nn.Linear(hid, output_shape[0])

    def forward(self, state, policy_state, lengths):
        h = policy_state.float().reshape(state.shape[0], -1)
        outs = []
        for t in range(state.shape[1]):
            h = torch.tanh(self._in(state[:, t].float()) + self._hh(h))
            outs.append(h)
        hs = torch.stack(outs, 1)
        last = hs[torch.arange(state.shape[0]), lengths.long() - 1]
        return self._out(last), torch.squeeze(last)


class RecCritic(RecNet):
    def forward(self, state, policy_state, lengths):
        return torch.squeeze(super().forward(state, policy_state, lengths)[0], -1)


def adam(lr=.05):
    return {'class': optim.Adam, 'params': {'lr': lr}}


TD_ALGS = {'QLearning': QLearning, 'DoubleQLearning': DoubleQLearning, 'SpeedyQLearning': SpeedyQLearning, 'SARSA': SARSA,
           'ExpectedSARSA': ExpectedSARSA, 'WeightedQLearning': WeightedQLearning, 'MaxminQLearning': MaxminQLearning,
           'RLearning': RLearning, 'RQLearning': RQLearning, 'SARSALambda': SARSALambda, 'QLambda': QLambda,
           'SARSALambdaContinuous': SARSALambdaContinuous, 'TrueOnlineSARSALambda': TrueOnlineSARSALambda}
DQN_ALGS = {'DQN': DQN, 'DoubleDQN': DoubleDQN, 'AveragedDQN': AveragedDQN, 'MaxminDQN': MaxminDQN, 'DuelingDQN': DuelingDQN,
            'CategoricalDQN': CategoricalDQN, 'QuantileDQN': QuantileDQN, 'NoisyDQN': NoisyDQN, 'Rainbow': Rainbow,
            'PrioritizedDQN': DQN}
BATCH = {'FQI': FQI, 'DoubleFQI': DoubleFQI, 'BoostedFQI': BoostedFQI, 'LSPI': LSPI}
PG = {'REINFORCE': REINFORCE, 'GPOMDP': GPOMDP, 'eNAC': eNAC}
BBO = {'RWR': RWR, 'PGPE': PGPE, 'REPS': REPS, 'ConstrainedREPS': ConstrainedREPS, 'MORE': MORE, 'ePPO': ePPO}
AC = ['A2C', 'PPO', 'TRPO', 'PPO_BPTT', 'DDPG', 'TD3', 'SAC', 'COPDAC_Q', 'StochasticAC', 'StochasticAC_AVG']
ALL = list(TD_ALGS) + list(DQN_ALGS) + list(BATCH) + list(PG) + list(BBO) + AC


def optimizer(rng):
    return rng.choice([lambda: SGDOptimizer(.01), lambda: AdaptiveOptimizer(.01), lambda: AdamOptimizer(.01, eps=.5)])()


def build(name, rng):
    """returns (agent, environment, parameters of learn)"""
    if name in TD_ALGS:
        cont = name in ('SARSALambdaContinuous', 'TrueOnlineSARSALambda')
        env = Toy('disc' if cont else 'tab')
        eps = rng.choice([lambda: Parameter(.5), lambda: LinearParameter(.9, .1, 30), lambda: DecayParameter(.9, exp=.5)])()
        pi = EpsGreedy(eps) if rng.random() < .7 else Boltzmann(rng.choice([Parameter(1.), DecayParameter(2., exp=.5)]))
        lr = rng.choice([Parameter(.2), DecayParameter(.9, exp=.8)] + ([] if cont else [DecayParameter(.9, exp=.8, size=env.info.size)]))
        kw = {'MaxminQLearning': dict(n_tables=3), 'RLearning': dict(beta=DecayParameter(.5, exp=.5)),
              'RQLearning': dict(beta=DecayParameter(.5, exp=.5)) if rng.random() < .5 else dict(delta=Parameter(.3)),
              'SARSALambda': dict(lambda_coeff=.8, trace=rng.choice(['replacing', 'accumulating'])),
              'QLambda': dict(lambda_coeff=.8, trace=rng.choice(['replacing', 'accumulating'])),
              'WeightedQLearning': dict(precision=20)}.get(name, {})
        if cont:
            phi = Features(basis_list=[PolynomialBasis(), PolynomialBasis([0], [1]), PolynomialBasis([1], [1])])
            ap = dict(input_shape=(phi.size,), output_shape=(3,), n_actions=3, phi=phi)
            lr = rng.choice([Parameter(.05), DecayParameter(.2, exp=.8)])
            if name == 'SARSALambdaContinuous':
                agent = SARSALambdaContinuous(env.info, pi, LinearApproximator, lr, .8, approximator_params=ap)
            else:
                agent = TrueOnlineSARSALambda(env.info, pi, lr, .8, approximator_params=ap)
        else:
            agent = TD_ALGS[name](env.info, pi, lr, **kw)
        return agent, env, dict(n_steps=rng.randint(3, 14), n_steps_per_fit=1)
    if name in DQN_ALGS:
        env = Toy('disc')
        pi = EpsGreedy(rng.choice([Parameter(.5), LinearParameter(.9, .1, 30)]))
        feat = name in ('CategoricalDQN', 'Rainbow')
        ap = dict(network=FeatNet if feat else QNet, optimizer=adam(), loss=None if feat else F.smooth_l1_loss,
                  input_shape=(2,), output_shape=(3,), n_actions=3, n_features=2)
        if name in ('DuelingDQN', 'NoisyDQN', 'QuantileDQN'):
            ap['network'] = FeatNet
        if name == 'QuantileDQN':
            ap['loss'] = None
            ap.pop('loss')
        if name in ('CategoricalDQN', 'Rainbow'):
            ap.pop('loss')
        kw = dict(batch_size=4, initial_replay_size=8, max_replay_size=16, target_update_frequency=rng.choice([4, 6]))
        if rng.random() < .3:
            kw['clip_reward'] = True
        if name in ('AveragedDQN', 'MaxminDQN'):
            kw['n_approximators'] = 2
        if name == 'QuantileDQN':
            kw['n_quantiles'] = 3
        if feat:
            kw.update(n_atoms=4, v_min=-2., v_max=2.)
        if name == 'Rainbow':
            kw.update(n_steps_return=2, alpha_coeff=.6, beta=LinearParameter(.4, 1., 40))
        if name == 'PrioritizedDQN':
            kw['replay_memory'] = {'class': PrioritizedReplayMemory, 'params': dict(alpha=.6, beta=LinearParameter(.4, 1., 40))}
        if name in ('DuelingDQN', 'NoisyDQN', 'QuantileDQN', 'CategoricalDQN', 'Rainbow'):
            agent = DQN_ALGS[name](env.info, pi, approximator_params=ap, **kw)
        else:
            agent = DQN_ALGS[name](env.info, pi, NumpyTorchApproximator, approximator_params=ap, **kw)
        return agent, env, dict(n_steps=rng.choice([6, 10, 16]), n_steps_per_fit=2)
    if name in BATCH:
        env = Toy('disc')
        pi = EpsGreedy(Parameter(1.))
        if name == 'LSPI':
            phi = Features(basis_list=[PolynomialBasis()])
            agent = LSPI(env.info, pi, approximator_params=dict(input_shape=(phi.size,), output_shape=(3,), n_actions=3, phi=phi))
        else:
            from sklearn.tree import ExtraTreeRegressor
            ap = dict(input_shape=(2,), n_actions=3, n_models=3 if name == 'BoostedFQI' else 1, min_samples_leaf=2)
            agent = BATCH[name](env.info, pi, ExtraTreeRegressor, n_iterations=3, approximator_params=ap, quiet=True)
        return agent, env, dict(n_episodes=12, n_episodes_per_fit=12)
    env = Toy('cont')
    if name in PG:
        mu = Regressor(LinearApproximator, input_shape=(2,), output_shape=(1,))
        sg = Regressor(LinearApproximator, input_shape=(2,), output_shape=(1,))
        sg.set_weights(np.array([.5, .7]))
        pi = StateStdGaussianPolicy(mu, sg)
        return PG[name](env.info, pi, optimizer(rng)), env, dict(n_episodes=6, n_episodes_per_fit=3)
    if name in BBO:
        mu = Regressor(LinearApproximator, input_shape=(2,), output_shape=(1,))
        if name == 'ePPO':
            mu = Regressor(TorchApproximator, input_shape=(2,), output_shape=(1,), network=SNet)
        pi = DeterministicPolicy(mu=mu)
        n = pi.weights_size
        kw = {'RWR': dict(beta=.5), 'PGPE': dict(optimizer=optimizer(rng)), 'REPS': dict(eps=.5),
              'ConstrainedREPS': dict(eps=.5, kappa=.1), 'MORE': dict(eps=.5),
              'ePPO': dict(optimizer=adam(), n_epochs_policy=2, batch_size=3, eps_ppo=.2)}[name]
        if name == 'ePPO':
            dist = DiagonalGaussianTorchDistribution(torch.zeros(n), torch.ones(n))
        elif name == 'MORE':
            dist = GaussianCholeskyDistribution(np.zeros(n), np.eye(n))
        else:
            dist = GaussianDiagonalDistribution(np.zeros(n), np.ones(n))
        ep = 12 if name == 'MORE' else 6
        return BBO[name](env.info, dist, pi, **kw), env, dict(n_episodes=ep, n_episodes_per_fit=ep)
    critic = dict(network=SNet, optimizer=adam(), loss=F.mse_loss, input_shape=(2,), output_shape=(1,))
    if name in ('A2C', 'PPO', 'TRPO'):
        pi = GaussianTorchPolicy(SNet, (2,), (1,), std_0=.8)
        if name == 'A2C':
            agent = A2C(env.info, pi, actor_optimizer=adam(), critic_params=critic, ent_coeff=.01, max_grad_norm=.5)
        elif name == 'PPO':
            agent = PPO(env.info, pi, actor_optimizer=adam(), critic_params=critic, n_epochs_policy=2, batch_size=4, eps_ppo=.2, lam=.9)
        else:
            agent = TRPO(env.info, pi, critic_params=critic, ent_coeff=.01, max_kl=.01, lam=.9, critic_fit_params=dict(n_epochs=2))
        return agent, env, dict(n_steps=12, n_steps_per_fit=6)
    if name == 'PPO_BPTT':
        hid = 3
        pi = RecurrentGaussianTorchPolicy(network=RecNet, input_shape=(2,), output_shape=(1,), policy_state_shape=(hid,), std_0=.8,
                                          dim_env_state=2, hid=hid)
        critic = dict(network=RecCritic, optimizer=adam(), loss=F.mse_loss, input_shape=(2,), output_shape=(1,), batch_size=4,
                      dim_env_state=2, hid=hid)
        agent = PPO_BPTT(env.info, pi, actor_optimizer=adam(), critic_params=critic, n_epochs_policy=2, batch_size=4, eps_ppo=.2, lam=.9,
                         dim_env_state=2, truncation_length=3, critic_fit_params=dict(n_epochs=1))
        return agent, env, dict(n_steps=12, n_steps_per_fit=6)
    sa = dict(network=SANet, optimizer=adam(), loss=F.mse_loss, input_shape=(3,), output_shape=(1,))
    ap = dict(network=SNet, input_shape=(2,), output_shape=(1,))
    if name in ('DDPG', 'TD3'):
        if rng.random() < .5:
            pc, pp = OrnsteinUhlenbeckPolicy, dict(sigma=torch.ones(1) * .2, theta=.15, dt=1e-1)
        else:
            pc, pp = ClippedGaussianPolicy, dict(sigma=torch.eye(1) * .09, low=torch.tensor([-1.]), high=torch.tensor([1.]))
        alg = {'DDPG': DDPG, 'TD3': TD3}[name]
        agent = alg(env.info, pc, pp, ap, adam(), sa, batch_size=4, initial_replay_size=6, max_replay_size=12, tau=.1,
                    policy_delay=rng.choice([1, 2, 3]))
        return agent, env, dict(n_steps=rng.choice([5, 8, 12]), n_steps_per_fit=1)
    if name == 'SAC':
        agent = SAC(env.info, ap, dict(ap), adam(), sa, batch_size=4, initial_replay_size=6, max_replay_size=12, warmup_transitions=9,
                    tau=.1, lr_alpha=.05)
        return agent, env, dict(n_steps=rng.choice([5, 8, 12]), n_steps_per_fit=1)
    phi = Features(basis_list=[PolynomialBasis(), PolynomialBasis([0], [1]), PolynomialBasis([1], [1])])
    mu = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=(1,), phi=phi)
    if name == 'COPDAC_Q':
        agent = COPDAC_Q(env.info, GaussianPolicy(mu, .1 * np.eye(1)), mu, DecayParameter(.01, exp=.5), Parameter(.05), Parameter(.05),
                         value_function_features=phi if rng.random() < .7 else None)
    else:
        std = Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=(1,), phi=phi)
        std.set_weights(-.3 * np.ones(std.weights_size))
        pi = StateLogStdGaussianPolicy(mu, std)
        kw = dict(lambda_par=.5, value_function_features=phi if rng.random() < .7 else None)
        if name == 'StochasticAC':
            agent = StochasticAC(env.info, pi, DecayParameter(.02, exp=.5), Parameter(.05), **kw)
        else:
            agent = StochasticAC_AVG(env.info, pi, DecayParameter(.02, exp=.5), Parameter(.05), DecayParameter(.1, exp=.5), **kw)
    return agent, env, dict(n_steps=rng.choice([4, 8]), n_steps_per_fit=1)
