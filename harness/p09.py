"""Weights, effective sample sizes, evidence and resampling of tempered ensembles."""
from kit import fl, vec, ints
from smcrun import *


def particles(scenario, state, i):
    value = state.value[i]
    prior = jax.vmap(scenario.prior_potential)(value)
    lik = jax.vmap(scenario.likelihood_potential)(value)
    d = {k: np.asarray(state.__dict__[k][i]) for k in ('tag', 'count', 'seen_temperature', 'used', 'alpha', 'potential', 'prior_potential', 'likelihood_potential')}
    v, prior, lik = np.asarray(value), np.asarray(prior), np.asarray(lik)
    return [dict(tag=int(d['tag'][k]), count=int(d['count'][k]), seen=fl(d['seen_temperature'][k]), used=fl(d['used'][k]), alpha=fl(d['alpha'][k]),
                 pot=fl(d['potential'][k]), prior=fl(d['prior_potential'][k]), lik=fl(d['likelihood_potential'][k]),
                 truePrior=fl(prior[k]), trueLik=fl(lik[k]), x=vec(v[k])) for k in range(len(v))]


def weights(rec, where, schedule, resample, stepsize, moves, n, seed, settings=None, frozen=False, how='built', top=1.):
    scenario = SCENARIOS[where]()
    settings = dict(settings or {})
    rm = settings.get('cls') is RMMetropolisedSMCSampler
    s = build(stepsize=stepsize, temperature_schedule=None if schedule is None else jnp.array(schedule), mcmc_steps=moves if how == 'built' else 1,
              ess_threshold_resample=resample if how == 'built' else 0.4, **({} if schedule is not None else dict(max_temperature=top)), **settings)
    if how != 'built':
        run(SCENARIOS['gauss2'](), s, 15, key(1))
        s.parameters.mcmc_steps = moves
        s.parameters.ess_threshold_resample = resample
    chain = run(scenario, s, n, key(seed), initial_state=start(scenario, n, seed))
    t = np.asarray(chain.temperature)
    rec('Config', cfg=dict(resample=fl(resample), moves=moves, frozen=frozen, mint=fl(min(1., t[0])), rm=fl(settings.get('rm_stepsize', 1.)),
                           target=fl(s.mcmc_sampler.tuning.target)))
    fit = np.clip(-np.asarray(chain.likelihood_potential[0], dtype=float), -200., 200.)
    for i in range(len(t)):
        extra = {}
        if rm:
            extra = dict(stepsize=fl(chain.stepsize[i]))
        if i == 0:
            extra = dict(stepsize=fl(chain.stepsize[0] if rm else stepsize), fit=vec(fit))
        rec('Start' if i == 0 else 'Step', i=i, t=fl(t[i]), lw=vec(chain.log_weight[i]), ess=fl(chain.ess[i]), z=fl(chain.log_norm_constant[i]),
            ps=particles(scenario, chain, i), **extra)


def cases(tier, seed):
    big = tier == 'thorough'
    out = []
    rm = dict(cls=RMMetropolisedSMCSampler)
    for rep in range(6 if big else 1):
        s = seed * 50 + rep * 7
        n = (400, 1500, 60)[rep % 3]
        for where in ('gauss2', 'cliff', 'banana', 'gauss4', 'far'):
            for j, (schedule, resample, moves) in enumerate((([0., 0.05, 0.2, 0.5, 1.], 0.5, 1), ([0.1, 0.3, 0.7, 1.3, 2.], 0.9, 2), ([0.02, 0.03, 0.4, 0.6], 0.25, 3),
                                                             ([0.1, 0.2, 0.3, 0.4], 0., 1), ([0.3, 0.35, 0.9], 1., 1))):
                if not big and (j + len(where)) % 5 in (1, 3) and j < 3:
                    continue
                out.append((f'{where} schedule {schedule} resample {resample} moves {moves} #{rep}', weights, where, schedule, resample, (0.5, 0.05)[j % 2], moves, n, s + j,
                            None, False, ('built', 'used')[j % 2]))
                if j in (0, 2, 3, 4):
                    out.append((f'frozen {where} schedule {schedule} resample {resample} #{rep}', weights, where, schedule, resample, 1e10, moves, n, s + j, None, True))
        for where in ('gauss2', 'banana', 'far'):
            out.append((f'adaptive {where} #{rep}', weights, where, None, 0.6, 0.2, 1, n // 2, s, dict(ess_threshold_retain=0.7), False, 'built', (1., 0.6, 1.8)[rep % 3]))
            out.append((f'tuned stepsize {where} #{rep}', weights, where, [0.1, 0.2, 0.4, 0.8], 0.6, 0.2, 2, n // 2, s, dict(rm_stepsize=(1., 0.4)[rep % 2], **rm)))
        out.append((f'tuned stepsize, adaptive #{rep}', weights, 'gauss2', None, 0.6, 0.2, 1, n // 2, s, dict(rm_stepsize=0.5, **rm)))
        out.append((f'underdamped moves #{rep}', weights, 'gauss2', [0., 0.3, 0.5, 1.], 0.8, 0.2, 2, n // 2, s, dict(base=Underdamped, leapfrog_steps=3)))
        for where in ('gauss2', 'gauss4', 'far'):
            out.append((f'large {where} #{rep}', weights, where, {'far': [0.03, 0.06, 0.1]}.get(where, [1.2, 2.2, 4.]), 1., 0.4, 1, 4000, s + 3))
        for where in ('unnormalised', 'peaked'):
            for schedule, resample in (([0.3, 0.8, 1.], 0.5), ([0., 0.4, 1.5], 0.)):
                out.append((f'{where} schedule {schedule} resample {resample} #{rep}', weights, where, schedule, resample, 0.2, 1, n, s))
            out.append((f'{where} adaptive #{rep}', weights, where, None, 0.6, 0.2, 1, n // 2, s, dict(ess_threshold_retain=0.7)))
        out.append((f'one particle #{rep}', weights, 'gauss2', [0.1, 0.5, 1.], 0.5, 0.3, 1, 1, s))
        out.append((f'three particles #{rep}', weights, 'cliff', [0.1, 0.5, 1.], 0.5, 0.3, 1, 3, s + 4))
    return out
