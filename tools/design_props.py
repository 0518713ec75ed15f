# id -> (specified, driven / observed, oracle and bounds, why tests cannot settle it)
D = {
'C01': ('`Core`: the run as a state machine over call/reset/draw/step/stop events with budgets, horizon and absorbing states',
        'Core with scripted environment, agent, policy and callbacks; every call they receive is an event; random run sequences and TLC-generated behaviours of MCCore',
        'exact; up to 3 runs per history, horizons 1-6, all budget kinds, 4 backend combinations',
        'interleavings of budget, horizon, fit frequency and consecutive runs; the tests run single long fits'),
'C02': ('same machine: pending transitions, fit due, callbacks', 'as C01; the dataset given to fit is recorded at the fit and again at the end', 'exact; includes aliasing of handed-out data', 'loss/duplication appears only at particular step/fit/episode phases'),
'C03': ('same machine: observation through the preprocessor chain, action, policy state, next action', 'as C01 with affine preprocessors and stateful policies', 'exact', 'needs states distinguishable at each step'),
'C04': ('`VectorCore`: per-environment machines under one mask', 'VectorCore on scripted vectorized environments, all backends', 'exact; 2-4 environments, run sequences', 'simultaneous ends, more environments than remaining episodes, truncated fits'),
'C05': ('`MultiEnv`: per-process environment machine', 'real MultiprocessEnvironment with real subprocesses', 'exact; 2-3 processes', 'masks, shared result arrays'),
'D01': ('`Dataset`: heap of datasets as sequences; each operation', 'real Dataset/VectorizedDataset on numpy, torch and list; every live dataset is read back after every operation; TLC behaviours of MCDataset', 'exact; up to 12 operations, sizes to 12', 'aliasing between views only shows in histories'),
'D02': ('operators over flags: episodes, returns, metrics', 'same histories', 'exact dyadic', 'incomplete last episodes, views'),
'D03': ('conversion = identity on content, kind of array', 'same histories', 'exact', 'all 9 backend pairs'),
'D04': ('`ExtraInfo`: sequence of nested dictionaries', 'ExtraInfo on all backends', 'exact', 'late keys, nesting, parse points'),
'R01': ('`Replay`: bounded FIFO of abstract transitions', 'ReplayMemory/PrioritizedReplayMemory, adds from datasets of all backends, save/load', 'exact; capacity 2-8', 'wrap-around phases'),
'R02': ('n-step windows over flags', 'same', 'exact dyadic', 'episode ends at each offset in the window, wrap-around'),
'R03': ('`SeqReplay`: maximal contiguous runs', 'SequenceReplayMemory; each sampled sequence is matched to a stored run', 'exact; capacity 3-9, truncation 1-5', 'wrap-around inside a sequence'),
'R04': ('`SumTree`, `Prioritized`', 'SumTree and PrioritizedReplayMemory; frequencies by 6 sigma', 'exact sums; weights fixed point', 'non-power-of-two capacities, updates after wrap'),
'T01': ('`TD`: one `Apply` per algorithm with per-entry visit counts', 'all tabular agents fitted through their public fit on random dyadic transitions; tables read after each', 'exact; <=4 states x 3 actions', 'absorbing handling, per-table learning rates, actions used on-policy'),
'T02': ('`Elig`: trace algebra', 'as T01, linear and true online included', 'exact dyadic / fixed point', 'episode boundaries with non-zero traces'),
'P01': ('`Param`: per-index use counters', 'all Parameter classes', 'exact / fixed point', 'interleaved indices, threshold, save/load'),
'P02': ('`Explore`: probability operators (fixed-point exp, root condition for mellowmax)', 'EpsGreedy, Boltzmann, Mellowmax, BoltzmannTorch', '10^-4..10^-6; 6 sigma frequencies', 'ties, schedule advancement'),
'P03': ('`Gauss`: density, gradient by definition', 'all Gaussian policies, OU, clipped, deterministic', 'fixed point', 'covariance/state-dependent cases, weight layout'),
'S01': ('`Serial`: files, objects and independence as a heap', 'Serializable classes with all methods; TLC behaviours of MCSerial', 'exact', 'histories of save/modify/load/copy'),
'S02': ('`Resume`: bisimulation of original, copy, loaded twin', 'every algorithm of the library is saved/copied mid-learning; twins continue under the same seed', 'exact equality of observed actions and parameters', 'one forgotten attribute changes only the future'),
'A01': ('`DQN`: memory, update counter, target = f(target nets), priorities', 'all DQN variants on scripted linear/tabular networks that record their batches', 'fixed point 10^-4', 'schedule phases, absorbing, n-step, n_approximators'),
'A02': ('`DeepAC`: schedules, targets, soft updates', 'DDPG, TD3, SAC with one-parameter networks', 'fixed point', 'delays, warm-up, tau at exact updates'),
'G01': ('`OnPolicy`: GAE recursion, surrogate gradients, trust region', 'compute_* helpers; A2C, PPO, TRPO with small networks', 'fixed point', 'truncation versus absorption inside a dataset, minibatch partitions'),
'G02': ('`PolGrad`: REINFORCE/GPOMDP/eNAC estimators, SAC/COPDAC stochastic actor-critics, optimizers', 'real agents on short episodes', 'fixed point', 'baselines, episode ends, optimizer state'),
'O01': ('`BBO`, `Dist`: episode -> (theta, J) pairing, REPS dual optimality, RWR, PGPE, MORE, ePPO', 'black-box agents under Core and VectorCore', 'fixed point; optimality of eta by its stationarity condition', 'pairing of parameters with returns across interrupted episodes'),
'O02': ('`Dist`: weighted maximum likelihood, entropy, gradient', 'all Gaussian distributions', 'fixed point, defining equations', 'degenerate weights, dimensions'),
'B01': ('`BatchTD`: FQI family targets, LSPI equations', 'FQI, DoubleFQI, BoostedFQI, LSPI', 'exact targets; LSPI by its linear system', 'absorbing rows, iteration counts'),
'E01': ('`FiniteEnv`: MDP generators, FiniteMDP stepping', 'generators on random grids; FiniteMDP rollouts', 'exact probabilities (rational), membership', 'walls, borders, slip, goals'),
'E02': ('`Solve`: Bellman equations, shortest path, LQR equations', 'dynamic programming, car-on-hill, LQR solvers', 'fixed point', 'every MDP, not one'),
'E03': ('`EnvDyn`: RK4/Euler of the published equations in fixed point', 'all listed environments stepped through their public interface', 'fixed point tolerances per environment', 'boundaries, saturation, parameters'),
'N01': ('`Stats`: running statistics', 'preprocessors and running statistics on numpy and torch', 'fixed point', 'batch/single mix, bounded/unbounded mix'),
'F01': ('`Feat`: definitions of every basis', 'features on random configurations', 'fixed point; multisets for generated bases', 'borders, one-feature shapes'),
'V01': ('`Approx`: tables, linear, CMAC, regressors, ensembles', 'Regressor/Table/CMAC/Ensemble histories', 'exact / fixed point; normal equations', 'index and shape combinations'),
'V02': ('`TorchFit`: epochs, batches, early stopping', 'TorchApproximator with a linear recording network and SGD', 'fixed point', 'early-stop phases, batch remainders, weights'),
}
D['L01'] = ('`Log`: file system of the loggers keyed by directory/name/seed/epoch, collectors as sequences', 'real Logger objects sharing scratch directories (all files re-read after every call, console captured), callbacks, DataBuffer, VideoRecorder (videos decoded again)', 'exact (grey levels of video frames within 25/255)', 'append versus seeds and several loggers over one directory; aliasing of collected data')
D['W01'] = ('`Wrap`: calls received by the simulator as a function of the calls of the wrapper; Atari as a machine over lives, FIRE, no-ops, frame history', 'Gym and Atari over scripted simulators registered in gym, DMControl over a scripted suite, Environment registry', 'exact', 'life loss, early ends inside a skip, consecutive resets, time limits')
D['W02'] = ('`Physics`: the sequence of hooks of a step as a function of the numbers of (sub)steps, the layout of observations, controls, resets, contacts; numbers are scaled by 1e5', 'MuJoCo and MultiMuJoCo over random specifications of a small model with free, hinge and slide joints, PyBullet over two robots, all hooks recorded; a second PyBullet simulator driven by the harness with the commands the environment should give', 'exact after rounding: raw data are read from the simulator without the helper code; the second simulator gives the reference for PyBullet', 'removed components in any order, subsets of actuators, recomputed actions, contacts, model changes between episodes')
D['P04'] = ('`Primitive`: phase counter and mean as an exact polynomial of the phase; the DMP systems in fixed point (scale 8192)', 'ProMP alone and inside Core, DMP, with changes of weights and goals, saves and loads', 'exact for ProMP means and phases; densities to 1e-4; samples by mean and variance of 3000 draws; DMP positions within 24/8192 over five steps', 'durations reached or exceeded, periodic movements, several episodes, state after loading')
D['G03'] = ('`Bptt`: the window of every row, the policy states along episodes, advantages in fixed point (scale 4096), the push of the clipped objective', 'PPO_BPTT in Core with recording critic, loss and actor networks; gradients of the means give the advantage used for every row', 'windows, values and critic targets exact; advantages within a few thousandths; log-std gradient for the entropy bonus', 'episodes shorter than, equal to and longer than the truncation, fits that cut an episode, flat and column critics, several epochs with clipping')
D['W03'] = ('`Hockey`: sticky contact flags, ends and the choice of reward terms as a machine over contacts and puck positions; frames and constraints in fixed point (scale 1e5)', 'all five tasks with contacts recorded per intermediate step and the puck put at goals, rims, mallets and high speeds; ball in a cup with the ball moved near the goal', 'cases, ends and flags exact; the exponential terms of the rewards are computed by the harness from raw simulator data and selected by the specification', 'contacts in any order, goals, own goals, bounces, fast pucks, two robots')
