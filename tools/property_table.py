prop('C01', 'A run returns exactly the sampler\'s trajectory from the initial state',
     'A run returns the states obtained by starting from the initial state (the supplied one when given) and applying the sampler\'s '
     'transition repeatedly: n states for a Markov chain or importance run of length n, and otherwise up to and including the first state in which '
     'the termination criterion holds or the iteration budget is spent, with every recorded field aligned to the same states. '
     'The result depends only on the scenario, the sampler, the arguments and the random key, so a longer run from the same key extends a shorter one; '
     'state, extra and chains supplied by the caller, and records of earlier runs, are not modified.',
     ['inputs', 'configurations', 'histories'],
     'all samplers (any transition, termination criterion and iteration budget, including zero), lengths from one, supplied states and keys, and continuations of earlier chains',
     'The tests check moments of a few fixed long runs; an off-by-one at termination, a padded state, state not threaded through, or a modified argument leaves those moments intact.',
     [S + 'sample.py', S + 'utils.py', S + 'mcmc/sampler.py', S + 'transport/sampler.py'],
     [('run', S + 'sample.py'), ('stacked while loop', S + 'utils.py: while_loop_stacked'), ('startup of parameters and extra', S + 'sample.py: Sampler.startup')],
     'Loop model exhaustive for two-valued samplers with one bit of memory and budgets up to 4, every behaviour replayed in the real loop (a seeded sample of them in the quick tier); shipped samplers by relations between runs.')
prop('C02', 'Indexing, joining, copying and stacking of states is exact row by row',
     'Indexing a dictionary of stacked states picks the same rows of every array in it, at any nesting depth, and leaves scalars, non-arrays and static sub-dictionaries alone; '
     'joining two dictionaries appends the rows of the second to those of the first key by key, adds up run times, and keeps the first\'s other entries. '
     'Copies, flattening and compiled identity maps preserve keys, order and contents. No operation changes its operands, a change to a copy\'s entries does not reach the original, and a change inside a deep copy\'s nested entries does not either.',
     ['inputs', 'histories'],
     'all dictionaries (nested and static ones, any array rank, any key sets) and all sequences of operations on them',
     'The tests index and add two fixed flat dictionaries; negative, gathered and masked indices, nesting, scalars, partially overlapping keys and aliasing are not reached.',
     [S + 'core.py'],
     [('indexing', S + 'core.py: cdict.__getitem__'), ('joining', S + 'core.py: cdict.__add__'), ('pytree', S + 'core.py: tree_flatten/tree_unflatten')],
     'Every sequence of two operations on six dictionaries enumerated by TLC and replayed (thorough: all; quick: all single operations and 1500 seeded pairs).')
prop('C03', 'A saved chain loads back identically and a failed save never loses the old one',
     'Loading a saved dictionary returns the fields, types, shapes and values that were saved. '
     'An existing file is only replaced when overwriting was requested, and if a save fails or the process dies at any point during it, '
     'the path afterwards holds either its complete previous contents (or nothing, if it did not exist) or the complete new contents. '
     'Loading a path that is not a saved dictionary is rejected with an error.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'all contents, all histories of saves and loads over several paths, failures before every file-system operation and after every number of written bytes, and process death at those points',
     'The tests save and load one small dictionary without faults; no test interrupts a save or saves over an existing file.',
     [S + 'core.py'], [('save', S + 'core.py: save_cdict'), ('load', S + 'core.py: load_cdict')],
     'Histories of depth 3 over two paths with seven fault kinds, enumerated by TLC and replayed (quick: 500 seeded); crash points: before each file operation and at byte limits, in a child process.')
prop('C04', 'Metropolis corrections accept or reject whole states with the exact probability',
     'Under a Metropolis correction every new state is either the complete proposed state or the complete state before the proposal, never a mixture, and the recorded acceptance '
     'probability is min(1, exp(potential difference plus the difference of the proposal or momentum terms)), 0 when that is undefined. '
     'A proposal is accepted exactly with that probability: always when it is 1, never when it is 0, in particular never into a state of infinite potential from one of finite potential. '
     'The recorded potential and gradient fields always belong to the recorded position.',
     ['inputs', 'schedules'],
     'all scenarios, dimensions, stepsizes, proposals (symmetric or not) and random outcomes, with infinite and undefined potentials, at any temperature',
     'The tests compare long-run means on smooth targets; a wrong ratio, a half-applied rejection or a NaN proposal accepted once in a while stays within their tolerance.',
     [S + 'mcmc/metropolis.py', S + 'mcmc/standard_mcmc.py', S + 'mcmc/sampler.py', S + 'mcmc/qn_underdamped.py'],
     [('accept/reject', S + 'mcmc/metropolis.py: Metropolis.correct'), ('acceptance probabilities', S + 'mcmc/standard_mcmc.py'), ('general proposal ratio', S + 'mcmc/metropolis.py: mh_acceptance_probability')],
     'Finite-state targets with potentials in multiples of ln 2 make acceptance probabilities exact; acceptance frequencies are compared with a bound of six standard errors.')
prop('C05', 'Adaptive corrections follow the Robbins-Monro recursion and then freeze',
     'An adaptive correction changes the tuned parameter after each iteration by stepsize scale times iteration to the negative exponent times (metric minus target), in the direction '
     'the declared monotonicity asks for, on the log scale by default so that the parameter stays positive, and never again after the adaptation cut-off. '
     'The recorded parameter is the one in force for the following proposal, an unset stepsize starts at 2.38 squared over the dimension, and the accept/reject step itself is unchanged. '
     'The variant for simulator-based inference additionally tracks the running mean and variance of the chain and sets each coordinate\'s stepsize from them.',
     ['inputs', 'histories', 'configurations'],
     'all chains, targets, scales, exponents, cut-offs, monotonicities and both update scales',
     'The tests check that the mean acceptance rate of one run per sampler is near the target; direction at low acceptance, freezing and the decay exponent are not observed.',
     [S + 'mcmc/metropolis.py', S + 'abc/mcmc.py'],
     [('adaptation', S + 'mcmc/metropolis.py: RMMetropolis'), ('diagonal stepsizes', S + 'abc/mcmc.py: RMMetropolisDiagStepsize')],
     'Every iteration of recorded chains is checked against the recursion; the design model shows freezing and positivity for all metric sequences within bounds.')
prop('C06', 'Langevin and Hamiltonian moves integrate reversibly and handle momenta correctly',
     'The leapfrog integrator alternates half momentum, full position and half momentum steps with the gradient of the tempered potential at each point, returns all intermediate points, '
     'and retraces its path when run from the end point with negated momentum. '
     'Underdamped samplers refresh momenta by the exact Ornstein-Uhlenbeck transition for the given friction and stepsize, propose the end point of the requested number of leapfrog steps, '
     'and reverse the momentum on rejection only, so that infinite friction gives Hamiltonian Monte Carlo with fresh standard normal momenta.',
     ['inputs', 'configurations'],
     'all differentiable scenarios, dimensions, stepsizes, numbers of leapfrog steps, frictions and temperatures',
     'The tests run samplers and compare means; errors of the integrator are corrected by the accept step and a sign error in the momentum handling only changes mixing.',
     [S + 'utils.py', S + 'mcmc/standard_mcmc.py'],
     [('leapfrog', S + 'utils.py: leapfrog'), ('momentum refresh', S + 'mcmc/standard_mcmc.py: Underdamped.always'), ('proposal', S + 'mcmc/standard_mcmc.py: Underdamped.proposal')],
     'Integrator trajectories recomputed step by step; momentum refresh checked in distribution (six standard errors).')
prop('C07', 'Potentials, gradients and temperature of a scenario always agree',
     'The potential of a scenario is its prior potential plus temperature times its likelihood potential at the current temperature, the gradient functions are the gradients of the corresponding potentials, '
     'and the combined functions return the same pair. '
     'This stays true after any sequence of changes to the temperature, the prior or likelihood potential, or the parameters of a shipped scenario (means, covariances, weights), '
     'and vectorised evaluation agrees with single evaluation. The shipped targets have the densities they are named after.',
     ['inputs', 'histories'],
     'all shipped and user-defined scenarios, positions, temperatures and sequences of modifications and evaluations',
     'The tests evaluate a few points of freshly built scenarios with unit or diagonal covariances at temperature one.',
     [S + 'core.py', S + 'scenarios/toy_examples.py', S + 'scenarios/twodim/toy_examples.py', S + 'utils.py'],
     [('tempered potential', S + 'core.py: Scenario'), ('gradients', S + 'core.py: Scenario.init_grad'), ('covariance caches', S + 'utils.py: reset_covariance')],
     'Modification histories enumerated by TLC and replayed; potentials recomputed in the specification, gradients against central differences and closed forms.')
prop('C08', 'Tempered ensembles climb their temperature ladder correctly and completely',
     'In a tempered ensemble run the recorded temperatures are exactly the prescribed schedule (a leading zero is the prior and takes no step); without a schedule each next temperature '
     'is the one at which the effective sample size drops to the requested fraction of its current value, or the maximum temperature if even that keeps more. '
     'Temperatures strictly increase, never exceed the maximum, and the run ends exactly when the maximum is reached, the iterations are used up, or more than a tenth of the values have become undefined. '
     'Afterwards the scenario is left at the final temperature.',
     ['inputs', 'configurations', 'histories'],
     'all scenarios, ensembles, schedules, retained fractions, maximum temperatures and reuse of sampler objects (likelihood finite on the ensemble where the ladder is adaptive)',
     'The tests look at final means of runs on one or two Gaussians with default fractions and maximum temperature one.',
     [S + 'transport/smc.py', S + 'utils.py'],
     [('ladder', S + 'transport/smc.py: TemperedSMCSampler, MetropolisedSMCSampler'), ('root finding', S + 'utils.py: bisect')],
     'Each recorded rung is checked against the schedule or against the effective sample size recomputed from the recorded ensemble.')
prop('C09', 'Ensemble weights, effective sample sizes and evidence estimates are exact',
     'At every step of a tempered ensemble run each log weight is the carried-over log weight (zero after resampling) minus the temperature increment times that particle\'s likelihood potential, '
     'the effective sample size is the one of those weights, and the log evidence grows by the change of the log total weight. '
     'Resampling happens exactly when the effective sample size is at or below the requested fraction; then whole particles are drawn with probability proportional to weight, '
     'so that particles of zero weight never survive, and the recorded potentials belong to the recorded positions at the recorded temperature.',
     ['inputs', 'histories', 'schedules'],
     'all ensembles, weights (including zero weights), thresholds, schedules and random outcomes',
     'The tests compare final ensemble means; bookkeeping errors of the evidence, of thresholds or of fields left behind at resampling do not move them.',
     [S + 'transport/smc.py', S + 'metrics.py'],
     [('reweighting', S + 'transport/smc.py: TemperedSMCSampler.adapt'), ('resampling', S + 'transport/smc.py: SMCSampler.resample'), ('effective sample size', S + 'metrics.py: log_ess_log_weight')],
     'All recorded ensembles are recomputed by the specification; resampling frequencies within six standard errors.')
prop('C10', 'Simulator-based sampling accepts exactly what lies within the threshold',
     'A simulator-based sample gets positive weight exactly when its simulated data lie strictly within the threshold of the observed data in the scenario\'s distance, and then weight one for prior proposals '
     'or prior over proposal density for importance proposals; when an acceptance rate is requested the threshold is the matching quantile of the distances. '
     'A Markov move is accepted with probability min(1, prior ratio) if the newly simulated data are strictly within the threshold and never otherwise. '
     'Position, prior potential, simulated data and distance of every recorded state belong together.',
     ['inputs', 'schedules'],
     'all simulators, data, thresholds (including zero and infinite), acceptance rates, priors (including bounded ones) and random outcomes',
     'The tests check posterior means loosely on g-and-k and linear models; acceptance outside the threshold or inverted prior ratios under flat priors go unnoticed.',
     [S + 'abc/importance.py', S + 'abc/mcmc.py', S + 'abc/abc.py'],
     [('importance weights', S + 'abc/importance.py'), ('Markov acceptance', S + 'abc/mcmc.py: RandomWalkABC'), ('distance', S + 'abc/abc.py: ABCScenario.distance_function')],
     'Deterministic and lattice simulators make distances exact, including exact ties with the threshold.')
prop('C11', 'Simulator-based ensembles only keep particles inside their threshold',
     'In a simulator-based ensemble run the recorded thresholds are the prescribed schedule (the last one kept after the last moves), or without one each is the requested quantile of the current distances; '
     'a particle has zero weight exactly when its distance exceeds the threshold, the effective sample size is the number of the others, and resampling happens exactly when it falls below the requested fraction. '
     'Particles of zero weight are not moved, survivors move by the Markov rule at the current threshold, and no particle accepted under a threshold lies outside it; the run ends when the mean acceptance rate of the particles just moved drops to the termination value or the iterations are used up. '
     'The default move uses the ensemble variances times 2.38 squared over the dimension as its stepsizes.',
     ['inputs', 'configurations', 'histories'],
     'all simulators, ensembles, schedules, fractions, numbers of moves and termination values, as long as a particle is alive',
     'The tests compare the final ensemble mean with wide tolerances.',
     [S + 'abc/smc.py', S + 'transport/smc.py'],
     [('threshold adaptation', S + 'abc/smc.py: MetropolisedABCSMCSampler.adapt'), ('termination', S + 'abc/smc.py: termination_criterion')],
     'Each recorded ensemble and each transition is checked; wrapped public methods record the intermediate ensemble.')
prop('C12', 'Particle filters weight, resample and extend trajectories correctly',
     'A particle filter step extends each particle\'s trajectory by one state without touching its past, adds to each log weight the log ratio of transition times observation density to proposal density '
     '(the observation density for the bootstrap filter, the predictive density for the optimal one), and resamples whole trajectories in proportion to weight exactly when the effective sample size is below the requested fraction, resetting weights. '
     'The run over all observations is the repetition of single steps, with the actual times and observations of each step, and its filtering distributions are those of the model.',
     ['inputs', 'histories', 'configurations'],
     'all models, dimensions, observation times (also unequally spaced), particle numbers, thresholds and random outcomes',
     'The tests compare filter means on two models with unit time steps and loose tolerance.',
     [S + 'ssm/filtering.py', S + 'ssm/nonlinear_gaussian.py', S + 'ssm/ssm.py'],
     [('propagation', S + 'ssm/filtering.py: propagate_particle_filter'), ('resampling', S + 'ssm/filtering.py: resample_particles'), ('optimal proposal', S + 'ssm/nonlinear_gaussian.py')],
     'Weights are recomputed from the recorded particles by the model\'s densities; resampling is checked as ancestor consistency.')
prop('C13', 'Backward simulation draws smoothed trajectories from the filter\'s particles',
     'Every state of a backward-simulated trajectory is one of the filter\'s particles at that time, chosen with probability proportional to filter weight times the transition density to the already chosen next state. '
     'With a rejection bound no smaller than the largest transition density the rejection variant has the same distribution as the full one, whatever its limit, and the reported number of density evaluations is consistent with the work done. '
     'Forward filtering followed by backward simulation returns the requested number of trajectories over all observation times.',
     ['inputs', 'schedules', 'configurations'],
     'all filter outputs (including zero-weight particles), models, numbers of trajectories, rejection limits and bounds',
     'The tests compare smoothed means of one linear and one nonlinear model with a coarse tolerance.',
     [S + 'ssm/backward.py'], [('backward kernel', S + 'ssm/backward.py')],
     'Support is exact; frequencies on small particle sets are compared with the exact backward kernel (six standard errors).')
prop('C14', 'Fixed-lag online smoothing stitches new history onto frozen history consistently',
     'Processing a new observation appends one time point, leaves states older than the lag unchanged as a set of surviving trajectories, and only combines an old part with a recent part of trajectories '
     'with probability proportional to weight times the transition density across the junction. '
     'The resulting particle approximates the fixed-lag smoothing distribution of the model, equally weighted unless stated by its log weights. '
     'Both variants use the observation and time of the new step only once and agree with each other in distribution.',
     ['inputs', 'histories', 'configurations'],
     'all models, lags from one up to beyond the length of the history, particle numbers, thresholds and rejection limits',
     'The tests compare smoothing means for one lag with wide tolerance.',
     [S + 'ssm/online_smoothing.py', S + 'ssm/backward.py'], [('stitching', S + 'ssm/online_smoothing.py')],
     'Provenance of every column of every trajectory is recovered by value; frequencies against the exact kernel (six standard errors).')
prop('C15', 'Exact linear-Gaussian inference matches the model',
     'For a linear Gaussian model the filter and smoother means and covariances, and the lag-one second moments, are the exact conditional moments of the model given the observations, '
     'for any dimensions, correlated covariances, non-square observation matrices, time-varying matrices and observation times. '
     'Filter and smoother agree at the last time, smoothing never increases uncertainty, and covariances are symmetric and positive.',
     ['inputs', 'configurations'],
     'all linear Gaussian models, observation sequences and times',
     'The tests use one model with diagonal covariances and compare with particle methods loosely.',
     [S + 'ssm/linear_gaussian/kalman.py', S + 'ssm/linear_gaussian/linear_gaussian.py'],
     [('filter', S + 'ssm/linear_gaussian/kalman.py'), ('smoother', S + 'ssm/linear_gaussian/kalman.py')],
     'Compared with conditioning the joint Gaussian of all states and observations in the specification.')
prop('C16', 'State-space models sample from the densities they evaluate',
     'For every shipped state-space model the initial, transition and observation samplers have the distribution given by the model\'s initial, transition and observation potentials, '
     'with the stated dependence on times and parameters, before and after the parameters are changed. '
     'The joint potential of a trajectory is the sum of the initial, transition and observation terms over exactly the given times and observations, its gradient functions are the gradients of those potentials, '
     'and simulated data sets follow the same recursion.',
     ['inputs', 'configurations', 'histories'],
     'all shipped models, dimensions, parameters, times, positions and modifications',
     'The tests check shapes and run filters; a density and its sampler disagreeing in scale, correlation or time step is not noticed.',
     [S + 'ssm/ssm.py', S + 'ssm/linear_gaussian/linear_gaussian.py', S + 'ssm/nonlinear_gaussian.py', S + 'ssm/scenarios/stochastic_volatility.py', S + 'ssm/scenarios/nonlinear1d.py', S + 'ssm/scenarios/lorenz96.py', S + 'ssm/scenarios/lorenz63.py'],
     [('densities and samplers', S + 'ssm/'), ('joint potential', S + 'ssm/ssm.py: smoothing_potential')],
     'Densities recomputed in the specification; samplers by standardised moments within six standard errors.')
prop('C17', 'Stochastic simulators follow their stated dynamics',
     'Every trajectory of the shipped simulators is one their dynamics allow: the epidemic model moves individuals one at a time between compartments and conserves the population, '
     'the predator-prey model changes by single births, deaths or predation events and reports the state at the requested times, the population model has its stated recursion and observation noise, '
     'and the quantile-function models are the stated transformation of normal variables. '
     'Event rates and event times have the stated distribution, and summaries and priors are those of the model.',
     ['inputs', 'schedules'],
     'all parameters in the support of the prior, initial conditions, observation times and random outcomes',
     'The tests only check posterior means of two simulators; trajectories are never inspected.',
     [S + 'abc/scenarios/SIR.py', S + 'abc/scenarios/lotka_volterra.py', S + 'abc/scenarios/ricker.py', S + 'abc/scenarios/gk.py', S + 'abc/scenarios/linear_gaussian.py'],
     [('simulators', S + 'abc/scenarios/')],
     'Single steps are checked as transitions of the jump-process specification; rates and times within six standard errors.')
prop('C18', 'Root finding, index and distance utilities return what they promise',
     'The bracketing root finder keeps the root inside its bounds, returns as soon as an end point is within tolerance, the iterations are used up or there is no sign change, and reports function values belonging to its bounds, for increasing and decreasing functions alike. '
     'Gaussian potentials, covariance resets, leave-one-out indices, pairwise distances, the localisation taper and the gain matrix equal their definitions for scalar, diagonal and full inputs.',
     ['inputs'],
     'all functions, brackets, tolerances and limits; all dimensions, covariances and index positions',
     'The tests evaluate a handful of fixed inputs.',
     [S + 'utils.py'], [('root finder', S + 'utils.py: bisect'), ('Gaussian potential', S + 'utils.py: gaussian_potential'), ('taper', S + 'utils.py: gc_matrix')],
     'The root finder is a state machine replayed per iteration limit; closed forms recomputed in the specification.')
prop('C19', 'Chain diagnostics equal their definitions on any chain',
     'Autocorrelations, integrated autocorrelation times, effective sample sizes of chains and of weighted ensembles, and squared jumping distances equal their definitions for any chain length, dimension, lag limit and scale. '
     'Effective sample sizes of weights are invariant to rescaling the weights, lie between one and the number of samples, treat zero weights as absent and are not affected by overflow.',
     ['inputs'],
     'all chains and weight vectors, including constant offsets, zero weights, extreme scales and short chains',
     'The tests evaluate two or three fixed arrays.',
     [S + 'metrics.py'], [('metrics', S + 'metrics.py')],
     'Definitions are evaluated in the specification on recorded inputs.')
prop('C20', 'Kernels, kernel derivatives and the Stein discrepancy equal their definitions',
     'Each shipped kernel is symmetric, equals its formula at the given parameters, and its first and mixed derivative functions are the derivatives of that formula, for any dimension, bandwidth and preconditioner, whether parameters are defaults or given in the call. '
     'Bandwidth updates equal the stated statistic of the pairwise distances. '
     'The kernel Stein discrepancy equals its defining double sum for full and batched evaluation and vanishes in expectation on the target.',
     ['inputs', 'configurations'],
     'all points, dimensions, bandwidths, exponents, preconditioners, sample sizes and batches',
     'The tests evaluate one-dimensional or unit-parameter cases, where several wrong formulas coincide.',
     [S + 'kernels.py', S + 'metrics.py'], [('kernels', S + 'kernels.py'), ('discrepancy', S + 'metrics.py: ksd')],
     'Closed forms and central differences in the specification. One known finding: the sign of the cross terms of the discrepancy.')
prop('C21', 'Ensemble Kalman inversion applies the stated update along its temperatures',
     'Each step of an ensemble Kalman run moves every member by the empirical gain times its perturbed innovation for the temperature increment, with covariances of the current ensemble and its simulated data, '
     'perturbations of the stated covariance, and re-simulates the data for the new members. '
     'Temperatures follow the schedule or the adaptive rule and never exceed the maximum; the run stops at the maximum temperature, at the iteration limit or when the ensemble has contracted to the requested fraction of its initial spread.',
     ['inputs', 'configurations', 'histories'],
     'all simulators, ensemble sizes, dimensions, schedules, nuggets, thresholds and termination fractions',
     'The tests compare final ensemble means on one linear model.',
     [S + 'transport/teki.py'], [('update', S + 'transport/teki.py: TemperedEKI.update'), ('temperatures', S + 'transport/teki.py')],
     'Updates with unit increment are deterministic and recomputed exactly; perturbed updates through their moments.')
prop('C22', 'Stein variational descent moves particles along the kernelised gradient',
     'Each step of a Stein variational run moves all particles by the optimiser applied to the kernelised gradient of the current particles: the mean over the particles (or the drawn batch) of minus kernel times potential gradient plus the kernel gradient. '
     'The kernel parameters are those given or the adapted bandwidth of the current ensemble, which is recorded, and the recorded potentials and gradients belong to the recorded positions. '
     'Permuting the initial particles permutes the result.',
     ['inputs', 'configurations'],
     'all scenarios, kernels, kernel parameters, optimisers, stepsizes, ensemble and batch sizes',
     'The tests compare final ensemble means.',
     [S + 'transport/svgd.py', S + 'kernels.py'], [('kernelised gradient', S + 'transport/svgd.py: kernelised_grad_matrix'), ('update', S + 'transport/svgd.py: SVGD.update')],
     'Plain gradient steps and Adagrad steps recomputed from recorded ensembles.')
prop('C23', 'Quasi-Newton factors satisfy the secant equations and stay consistent inverses',
     'With regularisation, or from histories of positive curvature, the quasi-Newton factors of any history of points and gradients define a positive definite matrix that equals the product of the stated updates and maps the latest accepted (regularised) gradient difference to the position difference; '
     'products with the factor, its transpose and its determinant agree with each other, and the factors for the Hessian and for its inverse are inverses. '
     'A quasi-Newton sampler remembers the latest states of its own chain and no others, and refreshes momenta, integrates and accepts with the mass matrix these define, being the plain underdamped sampler while its memory is empty.',
     ['inputs', 'histories'],
     'all histories (including non-convex stretches), dimensions, memory lengths and regularisations',
     'The tests check one quadratic history and a chain mean.',
     [S + 'utils.py', S + 'mcmc/qn_underdamped.py'], [('factors', S + 'utils.py: bfgs_sqrt_pqut'), ('sampler', S + 'mcmc/qn_underdamped.py')],
     'Matrix identities evaluated in the specification on recorded factors.')
prop('C24', 'Results never depend on what was run before',
     'Running a sampler on a scenario gives the same result whether or not the same sampler, scenario or Python process was used for other runs before, with the same or other lengths, keys, initial states, correction objects or scenarios. '
     'After any change to the scenario\'s or sampler\'s settings a run behaves as if both had been built with those settings.',
     ['histories', 'configurations'],
     'all histories of runs and modifications over a set of samplers and scenarios',
     'Tests build fresh objects for each case, so cached compiled functions and settings left behind on objects are never exercised.',
     [S + 'sample.py', S + 'mcmc/', S + 'transport/', S + 'abc/', S + 'ssm/filtering.py'],
     [('caches of compiled functions', S + 'utils.py, ssm/filtering.py'), ('settings kept on samplers', S + 'sample.py, transport/, abc/')],
     'Histories enumerated by TLC and replayed, each compared with a run on freshly built objects.')
prop('C25', 'Samplers leave their target distribution invariant',
     'If a Markov chain is started from an exact draw of its target (position, and momenta or simulated data where it has them), then so is every later state, for every corrected sampler with fixed parameters (or whose adaptation is frozen): random walk, underdamped and user-defined asymmetric proposals, and the simulator-based random walk, at every temperature, stepsize, number of leapfrog steps and friction, also when the likelihood is only estimated without bias. '
     'A tempered ensemble run along a prescribed schedule has the evidence as the expectation of its evidence estimate, and evidence-weighted ensemble averages are unbiased for the target, at any number of particles.',
     ['inputs', 'configurations', 'schedules'],
     'all corrected samplers and their parameters, all targets, all temperatures and schedules',
     'The tests compare chain means to one or two decimals on symmetric targets, where wrong acceptance rules often give the right mean.',
     [S + 'mcmc/', S + 'transport/smc.py', S + 'abc/'],
     [('acceptance', S + 'mcmc/metropolis.py'), ('evidence', S + 'transport/smc.py')],
     'Large vectorised batches of exact draws pushed through the real kernels; moments and quantiles within six standard errors of exact values.')
prop('C26', 'Plots show the samples and densities they are given',
     'A trace plot shows the requested number of latest values of the chain in order, and the whole chain if more are requested than there are; a histogram counts every value of the requested coordinate (of all chains) once in the requested number of equal bins over their range, as counts or as a density; a scatter plot shows the requested pair of coordinates; '
     'an autocorrelation plot shows at each lag the autocorrelation of that lag, up to the requested lag. A two-dimensional scenario is shown over the given limits, each density (or potential) at its own position; automatic limits enclose the region of at least a tenth of the largest density, are kept, and are recalculated on request. '
     'Given axes are drawn on and returned; otherwise a new figure is returned with its axes.',
     ['inputs', 'configurations'],
     'all chains, ensembles, shapes (single chain, several chains, arrays or cdicts), bins, lags, coordinates, limits and scenarios',
     'The tests do not look at what is drawn.',
     [S + 'metrics.py', S + 'scenarios/twodim/'],
     [('trace, histogram, scatter and autocorrelation plots', S + 'metrics.py: trace_plot, hist_1d_samples, plot_2d_samples, autocorrelation_plot'), ('density plots', S + 'scenarios/twodim/vectorise.py: plot, auto_axes_lims')],
     'What the real functions put on the axes, read back and judged by the specification.')
