NOTES = ('TLA+ with TLC. Every check: (1) TLC explores the design model of the module exhaustively for small constants, '
         '(2) histories of the real code are recorded through its public API and folded by TLC through the same '
         'specification operators, with a total accept/reject verdict per history; some checks also replay behaviours '
         'enumerated by TLC into the real code.')
NA = {}
TECH = 'TLA+ specification; TLC model checking; TLC validation of traces recorded from the real code'
TECHG = TECH + '; replay of TLC-generated behaviours into the real code'
NOTE = ('Exhaustive for the specification within the constants of its cfg; sampled (seeded) for the histories of the real '
        'code, each one judged by the specification. Trusts TLC, the recording harness and exact dyadic arithmetic.')
P = []


def prop(id, title, statement, over, forall, why, files, mech, tech=TECH, note=NOTE, obs=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech,
                  tech=tech, note=note, obs=list(obs)))


prop('C01', 'Runs execute exactly the requested budget with well-formed episodes',
     'A learn or evaluate run performs exactly the requested number of steps, or episodes, or one episode per given initial state '
     'in order, and rejects calls that do not give exactly one budget (and, for learning, exactly one fit frequency). '
     'The environment is reset exactly at the start of each episode, never in the middle, an episode is over exactly when an '
     'absorbing state is entered or the horizon is reached, and the agent is told about the start of each episode once. '
     'The agent and the environment are stopped exactly once, at the end of the run.',
     ['histories', 'configurations', 'programs'],
     'All budgets, horizons, absorbing patterns, sequences of learn/evaluate calls on one core, preprocessors, render/record flags.',
     'The tests run one or two fixed budgets and compare final numbers; they never see where resets, stops and ends of episodes fall.',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/_impl/core_logic.py'],
     [('run loop', 'Core._run, Core._step, Core._reset'), ('counters and budgets', 'CoreLogic')], TECHG)
prop('C02', 'Every transition reaches learning exactly once, in order, and when due',
     'During learning the agent is fitted exactly when the requested number of steps or episodes since the last fit is reached, '
     'on exactly the transitions collected since then, in order, each once, together with their step information and, for episodic '
     'agents, the parameters of each started episode. Fit callbacks run once per fit, in order, on the fitted data; the step callback '
     'once per step; evaluation returns every transition once, never fits, and data already handed out is not changed later.',
     ['histories', 'configurations', 'programs'],
     'All fit frequencies against all budgets, horizons and absorbing patterns, several calls on the same core.',
     'Tests check final weights of fixed runs; a dropped, duplicated or late transition changes nothing they look at for most runs.',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/_impl/core_logic.py', 'mushroom_rl/core/dataset.py'],
     [('fit trigger', 'CoreLogic.fit_required, after_fit'), ('collection buffer', 'Core._run, Dataset.append, Dataset.clear')], TECHG)
prop('C03', 'The recorded transition is the interaction that took place',
     'The state the agent acts on and the recorded state are the environment observation passed once through all preprocessors in '
     'order; the action executed is the action drawn; the recorded reward, next state, absorbing flag and end-of-episode flag are '
     'those of that step, and the next step starts from the recorded next state. The policy state is the one returned by the previous '
     'draw (or by the start of the episode), and a pending next action of the agent is used for the next step and forgotten at a reset.',
     ['histories', 'configurations', 'programs'],
     'All interleavings of episodes, fits, evaluations, preprocessors and stateful or on-policy agents.',
     'Tests use deterministic end results; misaligned states, skipped preprocessors or stale actions are invisible to them.',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/agent.py', 'mushroom_rl/core/environment.py'],
     [('step', 'Core._step, Core._preprocess'), ('agent memory', 'Agent.draw_action, Agent.episode_start')], TECHG)
prop('D01', 'Datasets are faithful, independent sequences of transitions',
     'After any history of appending, clearing, slicing, indexing, copying, concatenating, selecting the first episodes or random '
     'samples, and building from arrays, a dataset contains exactly the expected transitions (with policy states and step '
     'information) in the expected order on every backend. No operation changes the content of any other dataset, except that '
     'concatenation closes the last episode of the left operand in its result.',
     ['histories', 'inputs', 'configurations'],
     'All histories of operations over several datasets and views, all backends, stateful or not.',
     'Tests exercise a few fixed operations on one dataset and one backend.',
     ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/_impl/numpy_dataset.py', 'mushroom_rl/core/_impl/torch_dataset.py',
      'mushroom_rl/core/_impl/list_dataset.py'],
     [('storage', 'NumpyDataset, TorchDataset, ListDataset'), ('views', 'Dataset.get_view, __getitem__, __add__')], TECHG)
prop('D02', 'Episode statistics of a dataset follow its end-of-episode flags',
     'The number and lengths of the episodes, their initial states, their discounted and undiscounted returns and the summary metrics '
     '(minimum, maximum, mean, median and number of complete episodes) are those defined by the rewards and the end-of-episode flags, '
     'for every dataset and every discount factor, also when the last episode is incomplete or the dataset is a view.',
     ['inputs', 'histories'], 'All reward sequences, episode structures, discount factors, backends and views.',
     'Tests compare a few numbers on complete episodes of one backend.',
     ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/array_backend.py'],
     [('returns', 'Dataset.compute_J, discounted_return, undiscounted_return, compute_metrics'),
      ('episodes', 'Dataset.episodes_length, get_init_states, n_episodes')], TECHG)
prop('D03', 'Converting a dataset between backends preserves its content',
     'Converting a dataset (or parsing it to arrays) from any backend to any other yields arrays of the requested kind with exactly the '
     'same transitions, policy states and step information, in the same order.',
     ['inputs', 'histories', 'configurations'], 'All pairs of backends, all contents, also for views and concatenations.',
     'Tests convert one small dataset between two backends.',
     ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/array_backend.py'],
     [('conversion', 'Dataset.to_backend, Dataset.parse, ArrayBackend.convert')], TECHG)
prop('D04', 'Step information stays aligned with the steps that reported it',
     'After any history of appending, parsing, indexing, slicing, copying, adding, flattening and clearing, entry i of each information '
     'array is the value reported at step i (by each environment), also for nested dictionaries, keys that appear late or are missing, '
     'and every backend; the collection cannot be modified by key.',
     ['histories', 'inputs', 'configurations'], 'All interleavings of appends and parses, sets of keys, numbers of environments, backends.',
     'Tests append a few homogeneous dictionaries and parse once.',
     ['mushroom_rl/core/extra_info.py'], [('parsing', 'ExtraInfo.parse, append, flatten, get_view, __add__')])
prop('R01', 'Replay memories are bounded first-in first-out stores',
     'A (prioritized or uniform) replay memory holds exactly the last max-size transitions added since the last reset, in any number of '
     'calls and from datasets of any backend; every sampled transition is one of them, complete and unmodified, every one of them '
     'can be sampled, and a batch has the requested size. It reports its size, is initialized exactly when it holds more than the initial '
     'size, and saving and loading it (with its samples) preserves all this, while without samples it is loaded empty.',
     ['histories', 'inputs', 'configurations'], 'All sequences of additions of any length, resets, reloads and samplings.',
     'Tests add one dataset and look at one batch with a fixed seed.',
     ['mushroom_rl/rl_utils/replay_memory.py'], [('ring buffer', 'ReplayMemory.add, get, reset, SumTree.add')])
prop('R02', 'n-step replay windows never cross an episode end',
     'When transitions are added with n-step returns, one entry is stored for each window of n consecutive steps that contains no end of '
     'episode before its last step: first state and action, discounted sum of the n rewards, and next state, absorbing and last flags of '
     'the final step. The dataset given by the caller is left untouched.',
     ['histories', 'inputs'], 'All episode patterns, window lengths, discount factors, capacities and additions.',
     'Tests use n-step returns only inside one fixed deep RL run.',
     ['mushroom_rl/rl_utils/replay_memory.py'], [('n-step loop', 'ReplayMemory.add, SumTree.add')])
prop('R03', 'Sampled sequences are contiguous runs of one stored trajectory',
     'A sequence returned by the sequence replay memory is a run of consecutive steps of a single episode, all still stored, of at most '
     'the truncation length and as long as possible while nothing has been overwritten, with the action preceding each step (zero at the start of an '
     'episode), the reward and flags of its last step, its true length, and zeros after it. Every stored step can be the end of a '
     'sampled sequence.',
     ['histories', 'inputs', 'configurations'], 'All additions, also far beyond the capacity, all truncation lengths and backends.',
     'The only test samples a fixed seed from a memory that has not wrapped around.',
     ['mushroom_rl/rl_utils/replay_memory.py'], [('cutting sequences', 'SequenceReplayMemory.get')])
prop('R04', 'Prioritized replay samples proportionally to the current priorities',
     'Each stored transition is sampled with a frequency proportional to its current priority, and its importance weight is '
     '(N p / total)^-beta divided by the largest of the batch. Updating through a returned index changes the priority of exactly that '
     'transition to (|error| + epsilon)^alpha; the total and the maximum priority always equal the sum and the maximum of the stored ones (the '
     'maximum reported to users is one until the memory is initialized).',
     ['histories', 'inputs', 'configurations'], 'All additions, overwrites, updates and reloads, all capacities above one, ties included.',
     'Tests check one fixed-seed run; wrong sampling frequencies change nothing they can tell.',
     ['mushroom_rl/rl_utils/replay_memory.py'], [('sum tree', 'SumTree'), ('weights', 'PrioritizedReplayMemory.get, update')])
prop('C04', 'Vectorized runs treat every environment like a separate, exact run',
     'With several environments advanced together, each environment is reset exactly when its own episode is over and only active ones '
     'are advanced, every step of every environment is recorded once with its own state, action, reward, flags, policy state and '
     'information, and reaches exactly one fit (or the returned dataset); fits happen as soon as the requested number of steps or '
     'episodes is available, the requested budgets of steps or episodes are met, given initial states are used one per episode in '
     'order, and the returned dataset holds, environment by environment, well-formed trajectories.',
     ['histories', 'configurations', 'schedules'],
     'All numbers of environments (two or more), horizons, absorbing patterns, budgets, fit frequencies, backends, consecutive calls.',
     'Tests run a fixed vectorized cartpole and check shapes; they do not follow masks, episode ends or pending samples.',
     ['mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/_impl/vectorized_core_logic.py', 'mushroom_rl/core/dataset.py',
      'mushroom_rl/core/_impl/vectorized_core_logic.py'],
     [('run loop', 'VectorCore._run'), ('mask and budget', 'VectorizedCoreLogic'), ('collection', 'VectorizedDataset.append, clear, flatten')])
prop('C05', 'Environments in other processes behave like local ones',
     'Stepping, resetting, seeding, rendering and stopping a set of environments running in other processes has on each selected '
     'environment exactly the effect of the same call on a local instance, leaves the others untouched, and returns the states, '
     'rewards, flags and information of each environment at its own position, in arrays that later calls do not change. The vectorized '
     'run guarantees hold on top of it.',
     ['histories', 'schedules', 'configurations'], 'All interleavings of masked calls, numbers of environments, given initial states.',
     'Tests start the processes once and step them together.',
     ['mushroom_rl/core/multiprocess_environment.py', 'mushroom_rl/core/vectorized_env.py'],
     [('worker protocol', '_env_worker, MultiprocessEnvironment.step_all, reset_all')])
prop('T01', 'Tabular TD agents apply exactly the update rule of their algorithm',
     'On every transition, SARSA, expected SARSA, Q-learning, double, speedy, maxmin, R- and RQ-learning change exactly the visited '
     'entry of the tables their rule prescribes, by exactly the prescribed amount: the learning rate of that entry and visit (each table of a '
     'double or maxmin agent counts its own visits), the discounted value of the next state by the rule of the algorithm, and no value of the next state when it is absorbing. '
     'Weighted Q-learning moves the visited entry towards a target within the range of the next values. '
     'On-policy agents use in the update exactly the action executed next. The policy acts on the values just learned, also after saving and loading.',
     ['histories', 'inputs', 'configurations'],
     'All sequences of transitions, rewards, absorbing states, learning rates and numbers of tables, over several fits and reloads.',
     'Tests compare final tables of one fixed run per algorithm; wrong terminal handling, shared counters or stale next actions on other histories pass.',
     ['mushroom_rl/algorithms/value/td', 'mushroom_rl/approximators/table.py', 'mushroom_rl/approximators/ensemble.py'],
     [('updates', 'TD.fit, *._update'), ('tables', 'Table, EnsembleTable')])
prop('T02', 'Eligibility traces credit exactly the visited pairs of the episode',
     'SARSA(lambda) and Q(lambda), with replacing or accumulating traces, SARSA(lambda) with linear approximation and true online SARSA(lambda) '
     'update all values by the learning rate times the TD error times the trace; the trace of a pair is the '
     'decayed (discount times lambda) accumulation or replacement of its visits since the start of the episode, and is cleared when '
     'an episode starts. No value of the next state is used when it is absorbing.',
     ['histories', 'inputs', 'configurations'],
     'All sequences of episodes, revisits, rewards, trace decays, trace types and reloads.',
     'Tests compare the final table of one fixed run; traces leaking across episodes or a wrong decay on revisits need specific histories.',
     ['mushroom_rl/algorithms/value/td/sarsa_lambda.py', 'mushroom_rl/algorithms/value/td/q_lambda.py',
      'mushroom_rl/algorithms/value/td/sarsa_lambda_continuous.py', 'mushroom_rl/algorithms/value/td/true_online_sarsa_lambda.py',
      'mushroom_rl/rl_utils/eligibility_trace.py'],
     [('traces', 'EligibilityTrace, ReplacingTrace, AccumulatingTrace')])
prop('P01', 'Parameters follow their schedule, per index, and only when used',
     'Constant, linear and (polynomially) decaying parameters, and parameters depending on the variance of a target, have for every index the value of their '
     'schedule after the number of uses of that index, clipped to their bounds. Using one index does not advance another, reading '
     'a value does not advance it, the linear schedule stays at its threshold once reached, and saving, loading and copying keep the position in the schedule. Parameters of size one '
     'are shared by all indices.',
     ['histories', 'inputs', 'configurations'], 'All interleavings of uses, updates and reads over all indices, sizes and bounds.',
     'Tests check one value of some parameters.',
     ['mushroom_rl/rl_utils/parameters.py', 'mushroom_rl/rl_utils/variance_parameters.py'],
     [('schedules', 'Parameter, LinearParameter, DecayParameter'), ('variance', 'VarianceParameter, WindowedVarianceParameter')])
prop('S01', 'Loading returns what was saved, independent of the original',
     'For every object registering its attributes for saving (with any of the methods primitive, numpy, torch, pickle, json, mushroom, none, '
     'nested objects and lists of objects included), loading a saved file returns an object of the same class with equal attributes, where attributes '
     'registered with "none" are None and those marked "!" are None unless the save was full; the post-load step runs exactly once per loaded object, '
     'after all its attributes are set. Saving changes no object, a file changes only when it is written again, loaded objects and copies share nothing '
     'with the original or with each other, missing folders are created and loading a file that does not exist is an error.',
     ['histories', 'inputs'], 'All object trees, sequences of saves, loads, copies and modifications.',
     'The tests compare the attributes of one object once; they do not reach nested partial saves, lists, overwritten files or aliasing.',
     ['mushroom_rl/core/serialization.py'], [('save and load', 'Serializable.save_zip, load_zip, _save_mushroom')], TECHG)
prop('S02', 'A saved agent resumes exactly where it was',
     'For every algorithm of the library, an agent loaded from a full save, or a copy of an agent, acts and learns from then on exactly as the original would '
     'with the same data and random seed (same actions, same learned values or parameters), and an agent loaded from a partial save acts exactly as the original; '
     'what is done with one of them does not influence the others.',
     ['histories', 'configurations'],
     'All algorithms (tabular, eligibility traces, deep value-based, batch, policy search, actor-critic), configurations, save points and continuations.',
     'Tests compare the registered attributes right after loading; an unregistered attribute, or an optimizer that no longer points to the loaded parameters, passes.',
     ['mushroom_rl/core/agent.py', 'mushroom_rl/core/serialization.py', 'mushroom_rl/algorithms', 'mushroom_rl/policy', 'mushroom_rl/rl_utils/optimizers.py',
      'mushroom_rl/utils/torch.py'],
     [('registered attributes', '_add_save_attr of every algorithm'), ('relinking', '_post_load, TorchUtils.update_optimizer_parameters')])
prop('A01', 'Deep Q agents fit once per step on remembered samples with the right targets',
     'For DQN, double, averaged, maxmin, categorical, quantile and Rainbow agents: no update takes place until the memory holds more than its initial size; '
     'from then on each fit performs exactly one update of the online approximator, on a batch of samples that are among those still remembered, every sample with its '
     'own action, (clipped, if requested; n-step, if requested) reward and flags. The target of a sample is its reward plus the (n-step) discount times the value of its next state '
     'by the rule of the algorithm on the target approximators (action of the online network for double variants, mean or minimum over the members for averaged and maxmin ones, '
     'projected distribution for categorical ones), and just the reward when its next state is absorbing. The target approximators copy the online ones every '
     'target_update_frequency updates (fits) and change at no other time. With prioritized memories, new samples get the maximum priority, the importance weights of the batch are the ones used to fit, and '
     'the priorities are updated with the TD errors of the batch. Actions are greedy on the online approximator. Saving and loading keep all of this.',
     ['histories', 'inputs', 'configurations'],
     'All sequences of fits, batch and memory sizes, rewards, flags, n-step lengths, update frequencies, numbers of approximators, and reloads.',
     'Tests compare the weights of one trained network per algorithm with stored numbers; warm-up, memory wrap-around, absorbing masks and update counters of other configurations are not reached.',
     ['mushroom_rl/algorithms/value/dqn', 'mushroom_rl/rl_utils/replay_memory.py', 'mushroom_rl/approximators/ensemble.py'],
     [('update and targets', 'AbstractDQN.fit, DQN._next_q and overrides'), ('target networks', 'AbstractDQN._update_target')])
prop('A02', 'Deep actor-critic agents follow their update schedule and targets',
     'For DDPG, TD3 and SAC: no update takes place until the memory holds more than its initial size; from then on each fit updates the critic once, on a batch of remembered samples, '
     'towards reward plus discount times the (minimum over the two, for TD3 and SAC) target critic at the next state and the action chosen there by the target actor '
     '(with clipped smoothing noise within the action bounds, for TD3) or by the current policy minus alpha times its log-probability (SAC), and just the reward when the next state is absorbing. '
     'The actor is updated every policy_delay fits (DDPG, TD3) or once the warm-up transitions are available (SAC), to increase the critic value of its own actions, '
     'with the gradient clipped once if requested. Target networks move towards the online ones by tau at exactly the prescribed updates, and change at no other time.',
     ['histories', 'inputs', 'configurations'],
     'All sequences of fits, batch and memory sizes, delays, tau, rewards, flags, noise settings and gradient clips.',
     'Tests compare final weights of one short run per algorithm with stored numbers; schedules, absorbing masks and bounds of other configurations are not reached.',
     ['mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py',
      'mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/deep_actor_critic.py'],
     [('schedule', 'DDPG.fit, TD3.fit, SAC.fit'), ('targets', '*._next_q'), ('soft update', 'DeepAC._update_target, _optimize_actor_parameters')])
prop('P02', 'Exploration policies act with exactly the probabilities they report',
     'Epsilon-greedy, Boltzmann (numpy and torch) and Mellowmax policies report in every state the probabilities of their definition: epsilon spread over all actions and the rest shared by the tied best '
     'ones; exponentials of beta times the values, normalised; for Mellowmax, with the beta for which the expectation is the mellowmax value. The probabilities are non-negative, sum to one, agree between the forms with '
     'and without an action, and actions are drawn with those frequencies. Every drawn action, every explicit update and, for Boltzmann and Mellowmax, every evaluation of the probabilities advances the schedule of the exploration parameter once, '
     'at the index of that state; reading epsilon-greedy probabilities does not. Changing the parameter or the approximator takes effect at once, and saving and loading keep them.',
     ['histories', 'inputs', 'configurations'],
     'All value tables (with ties), schedules, per-state parameters, interleavings of reads, draws, updates, setter calls and reloads.',
     'Tests check one state and one call of each policy.',
     ['mushroom_rl/policy/td_policy.py', 'mushroom_rl/policy/torch_policy.py', 'mushroom_rl/rl_utils/parameters.py'],
     [('probabilities', 'EpsGreedy.__call__, Boltzmann.__call__, Mellowmax'), ('drawing', 'draw_action')])
prop('P03', 'Continuous policies sample from exactly the density they report',
     'For Gaussian policies with fixed, diagonal, state-dependent (standard deviation or its logarithm) covariance and the torch Gaussian policy, the reported density is the multivariate normal '
     'density with the mean given by the regressor and the covariance of the definition, diff_log is the gradient of its logarithm with respect to the weights in the order of get_weights, diff is the density times it, the entropy '
     'is that of the distribution, and the actions drawn have its mean and covariance. Clipped Gaussian policies draw the same, clipped to the bounds; deterministic policies return the prediction and have '
     'probability one there only; Ornstein-Uhlenbeck noise decays at its rate, grows with its variance, starts from its initial value after a reset, and is added to the mean. '
     'set_weights, set_sigma and set_std take effect at once and get_weights returns what was set; saving and loading keep everything.',
     ['inputs', 'configurations', 'histories'],
     'All weights, features, actions, covariances, dimensions, and histories of setter calls and reloads.',
     'Tests compare a few sampled numbers with stored ones and gradients with finite differences at one point.',
     ['mushroom_rl/policy/gaussian_policy.py', 'mushroom_rl/policy/noise_policy.py', 'mushroom_rl/policy/deterministic_policy.py', 'mushroom_rl/policy/torch_policy.py',
      'mushroom_rl/approximators/parametric/linear.py'],
     [('density and gradient', '*.__call__, diff_log'), ('weights', 'get_weights, set_weights')])
prop('G01', 'On-policy actor-critics learn from exact advantages within their trust region',
     'compute_gae, compute_advantage and compute_advantage_montecarlo return, for each sample, the generalised (discount times lambda weighted sum of TD errors up to the end of its episode), '
     'bootstrapped, or Monte Carlo advantage, and value targets equal to advantage plus value; absorbing states have value zero, a truncated episode bootstraps from its last next state, and nothing after the end of an '
     'episode enters the (generalised) advantages before it. Every fit of A2C, PPO and TRPO fits the critic once towards those targets. A2C takes one step of its optimizer along the advantage-weighted score plus the entropy gradient, with the norm clipped if requested. '
     'PPO makes n_epochs passes, each using every sample exactly once in batches of the given size, following the gradient of the clipped surrogate with ratios against the policy that collected the data and advantages standardised over '
     'the dataset. TRPO either leaves the policy as it is or takes the natural gradient step shrunk by a power of one half, at most as large as the KL bound allows (within 50%), that does not decrease the surrogate objective.',
     ['inputs', 'histories', 'configurations'],
     'All datasets (rewards, values, ends of episodes), discounts, lambdas, learning rates, clip ranges, batch sizes, entropy coefficients, KL bounds, and sequences of fits and reloads.',
     'Tests compare final weights of one short run per algorithm with stored numbers.',
     ['mushroom_rl/rl_utils/value_functions.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/a2c.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py',
      'mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py', 'mushroom_rl/utils/minibatches.py'],
     [('advantages', 'compute_gae, compute_advantage, compute_advantage_montecarlo'), ('policy updates', 'A2C.fit, PPO._update_policy, TRPO.fit')])
prop('G02', 'Policy gradients, actor-critics and optimizers make exactly their update',
     'Every fit of REINFORCE, GPOMDP and eNAC passes to the optimizer, once, the gradient of its definition computed from the complete episodes of the dataset: the average over episodes of the (cumulative) score times '
     'return (discounted reward) minus the variance-minimising baseline per component and, for GPOMDP, per time step over the episodes that reach it; for eNAC, the natural gradient by least squares of the returns on the discounted scores and the critic features of the initial state. '
     'The discount restarts at every episode and nothing of an earlier fit remains; REINFORCE and eNAC ignore an unfinished last episode. The policy weights become what the optimizer returns. '
     'StochasticAC (discounted and average reward) and COPDAC-Q update actor, critic and traces at every sample by their TD error, with absorbing next states of value zero, and traces cleared only at the start of an episode. '
     'SGD, Adam and the adaptive optimizer move the parameters by exactly their rule, upwards when maximising and downwards otherwise, and leave the given parameters and gradient as they are. Saving and loading keep all of it.',
     ['inputs', 'histories', 'configurations'],
     'All episodes, rewards, ends, discounts, learning rates, numbers of weights, sequences of fits, episode starts and reloads.',
     'Tests compare the weights of one short run per algorithm with stored numbers.',
     ['mushroom_rl/algorithms/policy_search/policy_gradient', 'mushroom_rl/algorithms/actor_critic/classic_actor_critic', 'mushroom_rl/rl_utils/optimizers.py'],
     [('gradients', 'PolicyGradient.fit and _compute_gradient'), ('actor-critics', 'StochasticAC.fit, COPDAC_Q.fit'), ('optimizers', '__call__')])
prop('O01', 'Black-box search pairs every return with the parameters that produced it',
     'For RWR, REPS, ConstrainedREPS and PGPE, in one or many vectorized environments: every learning episode runs with one parameter vector freshly drawn from the distribution (its mean if set deterministic), and every fit uses exactly the '
     'parameters and discounted returns of the episodes since the previous fit (in vectorized environments, also of the interrupted ones), each with its own, and updates the distribution once: RWR with weights exp(beta (J - max J)); REPS and ConstrainedREPS with weights '
     'exp((J - max J)/eta) for the one eta whose weighted samples have relative entropy epsilon; PGPE with the gradient using the variance-minimising baseline. ePPO makes its epochs over all episodes with the clipped surrogate of standardised returns. '
     'MORE keeps KL(new||old) within epsilon and the entropy above kappa (H - h0) + h0, and moves towards the maximum of the return. States of policies follow their own episode. Switching between single and vectorized runs, saving and loading keep all of it.',
     ['histories', 'schedules', 'inputs', 'configurations'],
     'All interleavings of episode ends over environments, fits and evaluations, returns, discounts, temperatures and bounds.',
     'Tests compare the final parameters of one short run per algorithm in a single environment; the vectorized path is not tested.',
     ['mushroom_rl/algorithms/policy_search/black_box_optimization', 'mushroom_rl/policy/vector_policy.py', 'mushroom_rl/core/dataset.py', 'mushroom_rl/core/vectorized_core.py'],
     [('pairing', 'BlackBoxOptimization.fit, episode_start, episode_start_vectorized, Dataset.append_theta'), ('updates', '*._update')])
prop('O02', 'Parameter distributions report and estimate exactly the Gaussian they sample',
     'For GaussianDistribution, GaussianDiagonalDistribution, GaussianCholeskyDistribution and the torch diagonal and Cholesky distributions: log_pdf, the density, entropy and mean are those of the normal distribution given by the parameters; samples have its mean and '
     'covariance; diff_log is the gradient with respect to the parameters in the order of get_parameters and diff the density times it; set_parameters and get_parameters are inverse to each other. '
     'mle gives the (weighted) mean and the (weighted, unbiased; population for the unweighted diagonal one) deviations or covariance of the points, and con_wmle an estimate whose KL divergence from the previous distribution and loss of entropy stay within the bounds. '
     'Saving and loading keep the distribution.',
     ['inputs', 'configurations', 'histories'],
     'All parameters, points, weights, bounds, one and two dimensions, and histories of setter calls, estimates and reloads.',
     'Tests check one distribution of each kind at a few points.',
     ['mushroom_rl/distributions/gaussian.py', 'mushroom_rl/distributions/torch_distribution.py', 'mushroom_rl/distributions/distribution.py'],
     [('density and gradient', 'log_pdf, diff_log'), ('estimation', 'mle, con_wmle'), ('parameters', 'get_parameters, set_parameters')])
prop('B01', 'Batch value iteration fits exactly the bootstrapped targets of its dataset',
     'Every fit of FQI performs its number of iterations, each fitting the approximator to reward plus discounted maximum of the previous values at the next state (reward alone at absorbing next states and in the very first iteration); '
     'later fits continue from the current values with the new dataset. DoubleFQI fits each of its two models on its own half of the samples, valuing with the other model the action that is best for its own; '
     'BoostedFQI fits model k to what the targets gained over the previous iteration, so that the sum of the models equals the values of FQI; LSPI ends with weights that are the least-squares fixed point of their own greedy policy. '
     'The policy acts greedily on the fitted values, the dataset is not modified, and saving and loading keep the values.',
     ['inputs', 'histories', 'configurations'],
     'All datasets (states, actions, rewards, absorbing flags, missing cells, repeated cells), discounts, numbers of iterations and sequences of fits and reloads.',
     'Tests compare the weights of one run per algorithm with stored numbers.',
     ['mushroom_rl/algorithms/value/batch_td', 'mushroom_rl/approximators/regressor.py', 'mushroom_rl/approximators/_implementations', 'mushroom_rl/approximators/ensemble.py'],
     [('iteration', 'FQI.fit, DoubleFQI.fit, BoostedFQI.fit'), ('policy iteration', 'LSPI.fit')])
prop('E01', 'Finite environments follow exactly their transition and reward model',
     'A FiniteMDP starts in a state drawn from its initial distribution (uniform if none; the given state if any) and every step goes to a state drawn from the probabilities of the current state and action, with the reward of that transition, absorbing exactly when no transition leaves the new state. '
     'GridWorld and GridWorldVanHasselt move one cell up, down, left or right, stay at the border, start at the start, and give rewards and end as documented (10 and end on entering the goal; -12 or 10 with equal probability elsewhere and 5 and end at the goal). '
     'generate_grid_world, generate_taxi and generate_simple_chain build exactly the process of the given map or chain: one state per free cell (and per set of collected passengers), walls and borders block, an action succeeds with its probability and otherwise leaves the state (taxi: slips to a side), '
     'goals and holes are terminal, rewards are given for moving into goals and holes (taxi: by the number of passengers), initial states are uniform over the start cells. Spaces, discount and horizon are those given.',
     ['inputs', 'configurations', 'histories'],
     'All transition and reward matrices, maps, probabilities, rewards, chains, goals, and sequences of resets and steps.',
     'Tests compare a few steps and one stored matrix per generator.',
     ['mushroom_rl/environments/finite_mdp.py', 'mushroom_rl/environments/grid_world.py', 'mushroom_rl/environments/generators'],
     [('steps', 'FiniteMDP.step, AbstractGridWorld.step'), ('generators', 'compute_probabilities, compute_reward, compute_mu')])
prop('E02', 'Solvers return the solution of exactly the problem they are given',
     'value_iteration returns values that satisfy the Bellman optimality equation of the given process within eps, and policy_iteration the optimal values with a policy that attains them. solve_car_on_hill returns, for every given state and action in order, '
     'gamma^(k-1) if the shortest sequence of actions starting with that action succeeds after k < max_k steps, and minus the discount reached otherwise (1 and -1 when the first step itself ends). '
     'For every linear-quadratic problem with a stable gain, compute_lqr_V and compute_lqr_Q (and their Gaussian versions) satisfy the Bellman equation of the (noisy) linear policy, their gradients with respect to the gain are the derivatives of those values, and the gain of compute_lqr_feedback_gain '
     'cannot be improved by changing an action. A batch gives the values of its rows, and the inputs are not modified.',
     ['inputs', 'configurations'],
     'All finite processes, discounts, tolerances, graphs of transitions, batches of states and actions, system and cost matrices, gains and covariances.',
     'Tests compare one instance per solver with stored numbers; batches are not tested.',
     ['mushroom_rl/solvers/dynamic_programming.py', 'mushroom_rl/solvers/car_on_hill.py', 'mushroom_rl/solvers/lqr.py'],
     [('dynamic programming', 'value_iteration, policy_iteration'), ('tree search', 'bfs, solve_car_on_hill'), ('regulators', 'compute_lqr_*')])
prop('E03', 'Continuous environments follow their equations of motion, rewards and ends',
     'Every step of CarOnHill, CartPole, InvertedPendulum, Segway, ShipSteering, LQR and PuddleWorld starts from the last observed state, saturates the action at its bounds, and reaches the state given by the published equations of motion for the constructor parameters and the time step '
     '(for CartPole and PuddleWorld, with uniform noise within the given bounds), with angles normalised to [-pi, pi], velocities, positions and states bounded where documented; nothing else of the history matters. '
     'Reward and end are those of the state reached: car -1/+1 on leaving left or too fast/right; pole -1 beyond pi/2; pendulum cos(theta), never ends; segway -10000 beyond pi/2, otherwise minus the quadratic cost; ship -100 out of the field, 0 through the gate, -1 otherwise, ending at the sub-step where it happens; '
     'LQR minus the quadratic cost of the old state and saturated action (episodic: -10 max_pos^2 and end beyond max_pos, otherwise the state is clipped); puddles -1 minus the Gaussian depths, reward_goal and end within goal_threshold (L1). '
     'reset(state) starts there (angles normalised), reset() in the documented initial state or distribution; earlier observations are not modified; discount, horizon, time step and spaces are those given.',
     ['inputs', 'histories', 'configurations'],
     'All states, actions (also beyond the bounds), parameters of the constructors, sequences of resets and steps.',
     'Tests compare the last state of one seeded rollout per environment.',
     ['mushroom_rl/environments/car_on_hill.py', 'mushroom_rl/environments/cart_pole.py', 'mushroom_rl/environments/inverted_pendulum.py', 'mushroom_rl/environments/segway.py',
      'mushroom_rl/environments/ship_steering.py', 'mushroom_rl/environments/lqr.py', 'mushroom_rl/environments/puddle_world.py', 'mushroom_rl/utils/angles.py'],
     [('dynamics', 'step, _dynamics, _dpds'), ('rewards and ends', 'step'), ('initial states', 'reset')])
prop('N01', 'Preprocessors and running statistics normalise exactly what they have seen',
     'RunningStandardization holds, after any sequence of values given one at a time, the mean and deviation of all of them (counting one initial zero with unit deviation), with a weight of at least alpha for a new value; for batches, the mean. RunningExpWeightedAverage holds the exponentially weighted average from its initial value, RunningAveragedWindow the mean of the last '
     'window_size values (the initial one included until it is pushed out); both take the rows of a batch in order, and reset returns to the start. '
     'StandardizationPreprocessor returns (obs - mean)/std clipped to clip_obs; MinMaxPreprocessor maps every component with finite bounds from [low, high] to [-1, 1] and standardises the others. '
     'This holds for the numpy and torch backends and any number of components and mix of bounded and unbounded ones. The observation given, and the bounds of the space, are not modified; saving and loading keep the statistics.',
     ['inputs', 'histories', 'configurations'],
     'All sequences of values, batches, resets and reloads; bounds, alphas, windows and clip values; numpy and torch.',
     'Tests run one environment and compare two backends on one history.',
     ['mushroom_rl/rl_utils/preprocessors.py', 'mushroom_rl/rl_utils/running_stats.py', 'mushroom_rl/core/array_backend.py'],
     [('statistics', 'update_stats, mean, std, reset'), ('preprocessing', 'StandardizationPreprocessor.__call__, MinMaxPreprocessor.__call__')])
prop('F01', 'Features are exactly the defined functions of every row of the input',
     'Tiles give the index of the cell that contains the point (first dimension fastest; none outside the half-open ranges), and Tiles.generate the given number of tilings, each displaced by the documented fraction of a tile and together covering the whole range; VoronoiTiles the nearest prototype. '
     'PolynomialBasis is the product of the (normalised) inputs to their degrees and generate builds every monomial up to the degree once; FourierBasis is cos(pi c.(x - low)/delta) and generate builds every combination of harmonics; '
     'GaussianRBF, GaussianRBFTensor and VonMisesBFTensor are their exponentials around the given centres or the uniform grid of generate, on the chosen dimensions, normalised if requested; RandomFourierBasis is sin(xP/nu + phi); ConstantTensor is one. '
     'Features of a single input is a vector of size elements, of a batch one such row per input row (for any number of features, also one); several inputs are concatenated; tile features are one-hot per tiling and compute_indexes their positions; get_action_features puts the features in the block of the action. Inputs are not modified.',
     ['inputs', 'configurations'],
     'All inputs, ranges, numbers of tiles and tilings, prototypes, degrees, harmonics, centres, scales, selected dimensions, batch sizes and ways of splitting the input.',
     'Tests evaluate one configuration of each kind at a few points.',
     ['mushroom_rl/features', 'mushroom_rl/utils/features.py'],
     [('tilings', 'Tiles, VoronoiTiles, TilesFeatures'), ('basis functions', 'PolynomialBasis, FourierBasis, GaussianRBF, BasisFeatures'), ('tensors', 'GenericBasisTensor, RandomFourierBasis, TorchFeatures')])
prop('V01', 'Approximators predict, fit and differentiate as their models say',
     'A Table (and every table of an EnsembleTable) returns the initial value of a cell or the last one written to it, for single states and batches, and writing a cell changes no other. A linear regressor predicts w.phi(x) per output, CMAC the sum of the weights of the active tiles; fitting a linear model solves its least squares problem, fitting a CMAC shares alpha times the error of every sample equally among its tiles, each taking the mean of its shares. '
     'Regressor builds a generic model, one with an output per action (n_actions equal to the output size) or one model per action; with a state and an action it returns the value of that action, with a state alone all of them, in the shape of the input (single or batch); a model per action is fitted on the samples of its action only. '
     'Ensembles combine the chosen models (all, a list or one index) by mean, sum, min or max, and report the variance across models when asked; fitting with idx changes only that model. get_weights/set_weights round-trip in the layout that diff uses, and diff is the derivative of the prediction with respect to the weights. Arrays of the caller are not modified. This holds for numpy and torch models.',
     ['inputs', 'histories', 'configurations'],
     'All tables, weights, inputs, batches, features, tilings, ensembles and ways of combining them, and all sequences of fits, writes and predictions.',
     'Tests fit one dataset per kind and compare stored predictions.',
     ['mushroom_rl/approximators'],
     [('tables', 'Table, EnsembleTable'), ('linear models', 'LinearApproximator, CMAC'), ('regressors', 'Regressor, GenericRegressor, QRegressor, ActionRegressor, Ensemble')])
prop('V02', 'Torch approximators train on every sample as asked and stop when asked',
     'TorchApproximator.fit (and NumpyTorchApproximator, directly or in a Regressor or ensemble) runs n_epochs epochs (one by default); every epoch uses each training sample exactly once, in batches of batch_size (the last may be smaller; the whole set if 0), and each batch makes one optimizer step on its mean loss, weighted by the weights of its samples divided by their sum if given. '
     'The training samples are the first ceil(n * validation_split); with epsilon the fit stops after `patience` consecutive epochs whose loss (on the remaining validation samples if any, otherwise the training loss) does not improve the best by more than epsilon, and at most after n_epochs. '
     'loss_fit is the mean training loss of the last epoch; reinitialize calls weights_init before every fit; with dropout the network is in training mode during the fit only. The last n_fit_targets arguments are the targets. Arrays of the caller are not modified, and models that are not fitted keep their weights.',
     ['inputs', 'histories', 'configurations'],
     'All datasets, batch sizes, epochs, sample weights, validation splits, epsilon and patience values, orders of the samples, and sequences of fits.',
     'Tests train one network with fixed parameters and compare stored weights.',
     ['mushroom_rl/approximators/parametric/torch_approximator.py', 'mushroom_rl/utils/minibatches.py', 'mushroom_rl/approximators/ensemble.py'],
     [('training loop', 'TorchApproximator.fit, _fit_epoch, _fit_batch, minibatch_generator'), ('loss', 'TorchApproximator._compute_batch_loss')])
prop('L01', 'Loggers, collectors and recorders keep exactly what they were given',
     'log_numpy keeps, in the file of its name and seed in the directory of the logger, all the values logged under that name in order; log_numpy_array, log_agent (per epoch, full or not) and log_dataset the last object given; log_best_agent the agent with the largest performance so far. Loggers of other seeds, names and directories do not interfere; with append a logger continues '
     'the data of its own seed, otherwise it starts anew. Messages go to the console and to the log file, once, in order, with their level, when at least of the level of each. '
     'CollectDataset holds all the (flattened) transitions it was called with, in order, since it was last cleaned; CollectQ, CollectMaxQ and CollectParameters one entry per call with the (mean, for ensembles) table, the maximum in the state, or the value of the parameter at that time, which later learning does not change. DataBuffer keeps the last length values received while tracking. '
     'Every recording of VideoRecorder is a file of its own with exactly its frames, in order.',
     ['inputs', 'histories', 'configurations'],
     'All sequences of opening loggers (with seeds, append, levels), logging and collecting; all datasets, tables and parameters; all recordings.',
     'Tests log three values with two seeds and run each callback once.',
     ['mushroom_rl/core/logger/data_logger.py', 'mushroom_rl/core/logger/console_logger.py', 'mushroom_rl/core/logger/logger.py', 'mushroom_rl/utils/callbacks', 'mushroom_rl/utils/plots/databuffer.py', 'mushroom_rl/utils/record.py'],
     [('data logging', 'DataLogger.log_numpy, log_best_agent, _load_numpy'), ('messages', 'ConsoleLogger'), ('collection', 'CollectDataset, CollectQ, CollectMaxQ, CollectParameters, DataBuffer'), ('video', 'VideoRecorder')])
prop('W01', 'Wrapped environments pass every call and answer through unchanged',
     'Every reset and step of a Gym or DMControl environment is exactly one reset or step of the simulator with the given action (the integer, for discrete actions), and returns its observation (as a vector; for dm_control all entries in order), reward, end and information; reset with a state starts gym environments in that state; the time limit of the simulator is replaced by the horizon, '
     'which is the given one or that limit; wrappers are applied with their arguments; seed and stop are forwarded. '
     'An Atari environment resets the game only when the game is over or stopped, fills the history with the first frame, presses FIRE first (where it exists) after a reset and after a lost life, makes between zero and max_no_op_actions no-op actions after a reset (each number possible), repeats the action history_length times for NoFrameskip games until the end, summing the rewards and pooling (maximum or mean) the last two frames, '
     'keeps the last history_length frames scaled to height by width, and ends when the game is over or, if requested, when a life is lost. Observations already returned do not change. Environment.make calls generate (or the constructor) of the class registered first under the name, with the parts of the name after dots before the other arguments; spaces, discount, horizon and time step are those given.',
     ['inputs', 'histories', 'configurations'],
     'All simulators (scripted rewards, ends, lives, frames and observations), sequences of resets, steps, seeds and stops, and constructor parameters.',
     'Tests run one game and one gym environment and compare a stored state.',
     ['mushroom_rl/environments/gym_env.py', 'mushroom_rl/environments/atari.py', 'mushroom_rl/environments/dm_control_env.py', 'mushroom_rl/core/environment.py', 'mushroom_rl/utils/frames.py', 'mushroom_rl/rl_utils/spaces.py'],
     [('gym', 'Gym.__init__, reset, step, _set_horizon'), ('games', 'Atari.reset, step, MaxAndSkip.step, LazyFrames'), ('dm_control', 'DMControl.reset, step'), ('registry', 'Environment.register, make')])
prop('W02', 'Environments over physics simulators step, observe and act as specified',
     'One step of a MuJoCo, MultiMuJoCo or PyBullet environment runs the methods a subclass overrides once and in order (preprocess the action, step_init, for each of the n_intermediate_steps: compute the action if overridden (PyBullet: always) from the observation of that moment, pre_step, n_substeps simulator steps under exactly those controls, post_step; then step_finalize, is_absorbing, reward), '
     'with the previous and the new observation, the preprocessed action and the computed absorbing flag, and returns that reward, flag, information and the modified observation. Observations contain the entries of the specification in its order, without the removed components and followed by the added ones; lookups by key, joint lookups, limits of observations and actions, dt, discount and horizon agree with that layout and the model. '
     'Actions reach exactly the actuators given, in their order and control mode; reset clears the simulator and takes joint values from the given observation; MultiMuJoCo uses its models in turn or each at random, all with the given time step, refuses models whose spaces differ, and encodes the index in binary. Collision checks and forces, and reading and writing additional data, agree with the simulator. Returned observations do not change later.',
     ['inputs', 'histories', 'configurations'],
     'All observation and actuation specifications, removed and added components, numbers of steps and substeps, overridden hooks, sequences of resets and steps, and models.',
     'Tests run three pybullet and MuJoCo environments for a few steps with fixed specifications and compare the final state.',
     ['mushroom_rl/environments/mujoco.py', 'mushroom_rl/utils/mujoco/observation_helper.py', 'mushroom_rl/environments/pybullet.py', 'mushroom_rl/utils/pybullet/index_map.py', 'mushroom_rl/utils/pybullet/contacts.py', 'mushroom_rl/utils/pybullet/joints_helper.py'],
     [('mujoco', 'MuJoCo.step, reset, ObservationHelper'), ('several models', 'MultiMuJoCo'), ('pybullet', 'PyBullet.step, IndexMap, ContactHelper, JointsHelper')])
prop('P04', 'Movement primitives follow their phase or dynamical system',
     'The policy state of a ProMP counts the steps of the episode from zero (it stops at the duration unless the movement is periodic); the mean of the action is the regressor applied to the features of state / duration; without a covariance the action is the mean and has probability one, with a covariance actions are normal around it and the density is the normal density; the policy state passed in is not modified and datasets contain the phases of every episode. '
     'A DMP starts every episode at rest in zero and makes one Euler step of its canonical and transformation systems per action, all derivatives taken before the step, with the force regressor(features(x / goal)) * v, towards the current goal; only the current point has probability one. Weights set are the weights used; saved primitives load equal, mid-movement included; returned actions do not change later.',
     ['inputs', 'histories', 'configurations'],
     'All weights, durations, goals, gains, sequences of actions, resets, weight and goal changes, saves and loads, and episodes of any length.',
     'No test covers movement primitives.',
     ['mushroom_rl/policy/promps.py', 'mushroom_rl/policy/dmp.py'],
     [('phase', 'ProMP.draw_action, update_time, __call__'), ('dynamics', 'DMP.update_system')])
prop('G03', 'Recurrent PPO sees every transition inside its own episode',
     'With a recurrent policy the policy state is zero at the beginning of every episode and then what the network returned; datasets contain it. Whenever PPO_BPTT fits, the critic and the policy see for every transition the last truncation_length states of its own episode up to and including it (never those of another episode), padded to that length and given with their number, together with the policy state at the first of them (next states with the next policy state for the bootstrap); '
     'values are not bootstrapped in absorbing states, generalised advantages do not cross the end of an episode or of the data, critic targets are advantage plus value, advantages are standardised, every transition takes part once per epoch with its own advantage, action and sequence in the clipped PPO objective with the entropy bonus. Saved policies and agents load equal.',
     ['inputs', 'histories', 'configurations'],
     'All lengths of episodes, truncation lengths, discounts, lambdas, minibatch sizes, numbers of epochs, critics with flat or column output, sequences of fits with n_steps or n_episodes per fit, saves and loads.',
     'No test covers recurrent policies or PPO_BPTT.',
     ['mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py', 'mushroom_rl/policy/recurrent_torch_policy.py'],
     [('windows', 'PPO_BPTT._transform_to_sequences'), ('targets', 'PPO_BPTT.compute_gae'), ('update', 'PPO_BPTT._update_policy'), ('policy', 'RecurrentGaussianTorchPolicy')])
prop('W03', 'Air hockey and ball in a cup score, end and observe by the rules of their task',
     'In the MuJoCo air hockey tasks (hit, defend, prepare, repel, double) the flags for contacts of the puck with each end effector and with the short sides are set by the first contact at any intermediate step and stay until the reset, and are the last entries of the observation. An episode ends when the puck leaves the table or is faster than 100; in defend also once hit or bounced with x > 0, in repel once bounced, in prepare once hit with x > 0 or |y| < 0.01 (side: also once bounced). '
     'The reward is that of the case (goal, own goal, bounce, before and after the hit, position of the puck) as documented in the class, computed from the linear velocity of the puck, minus the action penalty. Observations show the puck (position, linear velocity, rotation) in the frame of each robot, with small noise on the position only if asked for; the constraints reported are the distances of end effector, joint positions and joint velocities to their limits; get_ee gives the end effector of the robot asked for; the puck is pushed by noise only if asked for. '
     'reset places puck and arms as configured (middle or uniform in the range, initial velocities in their range). Ball in a cup starts always in the same state, pays one and ends within 0.05 of the goal, and ends when the ball touches the robot.',
     ['inputs', 'histories', 'configurations'],
     'All tasks and their parameters, positions and velocities of the puck, sequences of contacts, actions and resets.',
     'Tests compare the observations of twenty fixed steps per task from the default start; rewards, ends, constraints and contacts are not tested.',
     ['mushroom_rl/environments/mujoco_envs/air_hockey/base.py', 'mushroom_rl/environments/mujoco_envs/air_hockey/single.py', 'mushroom_rl/environments/mujoco_envs/air_hockey/hit.py', 'mushroom_rl/environments/mujoco_envs/air_hockey/defend.py', 'mushroom_rl/environments/mujoco_envs/air_hockey/prepare.py', 'mushroom_rl/environments/mujoco_envs/air_hockey/repel.py', 'mushroom_rl/environments/mujoco_envs/air_hockey/double.py', 'mushroom_rl/environments/mujoco_envs/ball_in_a_cup.py', 'mushroom_rl/utils/mujoco/kinematics.py'],
     [('flags', 'AirHockeySingle._simulation_post_step, setup'), ('ends and rewards', 'is_absorbing and reward of every task'), ('frames', 'AirHockeyBase._puck_2d_in_robot_frame'), ('cup', 'BallInACup')])
