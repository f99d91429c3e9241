"""Temperature ladders: schedules and limits enumerated by TLC, and adaptive ladders of many ensembles."""
import json
import random as pyrandom

from kit import fl, vec, ints
from smcrun import *


def record(rec, scenario, chain, cfg, n):
    values = np.asarray(chain.value)
    rec('Start', cfg=cfg, n=n)
    for i in range(len(chain.temperature)):
        rec('Climb', t=fl(chain.temperature[i]), lw=vec(chain.log_weight[i]) if cfg['adaptive'] else [], lik=vec(chain.likelihood_potential[i]) if cfg['adaptive'] else [])
    rec('End', scenario=fl(scenario.temperature), undefined=fl(np.isnan(values[-1]).mean()), n=values.shape[1])


def describe(sampler, schedule, budget, max_temperature, retain, resample):
    return dict(adaptive=schedule is None, schedule=[] if schedule is None else vec(np.asarray(schedule, dtype='float32')), max=fl(np.float32(max_temperature)),
                budget=budget, retain=fl(retain), resample=fl(resample))


def ladder(rec, where, schedule, max_temperature, budget, settings, how, n, seed, history=()):
    scenario = SCENARIOS[where]()
    settings = dict(settings)
    retain, resample = settings.pop('retain', 0.9), settings.pop('resample', 0.5)
    fractions = dict(ess_threshold_retain=retain, ess_threshold_resample=resample)
    sched = None if schedule is None else jnp.array(schedule)
    if how == 'built':
        s = build(temperature_schedule=sched, **({} if schedule is not None else dict(max_temperature=max_temperature, max_iter=budget)), **fractions, **settings)
        kw = {}
    else:
        first = jnp.array([0.1, 0.4, 0.9])
        s = build(temperature_schedule=None if schedule is not None and how != 'kwargs' else first, **settings)
        kw = {}
        if how == 'assigned':
            s.temperature_schedule = sched
            s.parameters.ess_threshold_retain, s.parameters.ess_threshold_resample = retain, resample
        else:
            kw = dict(temperature_schedule=sched, **fractions) if how == 'kwargs' else {}
        if how == 'used':
            for k in range(2):
                run(SCENARIOS['gauss2'](), s, 20 + k, key(k), temperature_schedule=None if k else jnp.array([0., 0.2, 0.5]))
            s.temperature_schedule = sched
            s.parameters.ess_threshold_retain, s.parameters.ess_threshold_resample = retain, resample
        if schedule is None:
            if how == 'kwargs':
                kw.update(max_temperature=max_temperature, max_iter=budget)
            else:
                s.max_temperature, s.max_iter = max_temperature, budget
    for other in history:
        run(SCENARIOS[other](), s, n + 3, key(seed + 77), **kw)
    chain = run(scenario, s, n, key(seed), **kw)
    record(rec, scenario, chain, describe(s, schedule, budget, max_temperature, retain, resample), n)


def undefined(rec, seed):
    """Particles become undefined half way: the run gives up."""
    scenario = SCENARIOS['gauss2']()
    s = build(temperature_schedule=jnp.linspace(0.1, 1, 10))

    class Breaking(probe(RandomWalk)):
        def always(self, sc, state, extra):
            state, extra = super().always(sc, state, extra)
            state.value = jnp.where(sc.temperature > 0.45, jnp.nan, state.value)
            return state, extra

    s = MetropolisedSMCSampler(Breaking(stepsize=0.1), temperature_schedule=jnp.linspace(0.1, 1, 10))
    chain = run(scenario, s, 30, key(seed))
    record(rec, scenario, chain, describe(s, np.linspace(0.1, 1, 10), 10, 1., 0.9, 0.5), 30)


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    out = []
    configs = json.load(open(casefile))
    if not big:
        prescribed = [c for c in configs if c['schedule']]
        adaptive = {(c['max'], c['budget']): c for c in configs if not c['schedule']}
        configs = pyrandom.Random(seed).sample(prescribed, min(len(prescribed), 24)) + list(adaptive.values())
    hows = ('built', 'assigned', 'kwargs', 'used')
    for k, c in enumerate(configs):
        grid = (0.25, 0.2, 0.4)[k % 3]
        for how in hows if big else (hows[k % 4],):
            out.append((f'ladder {c["schedule"] or ("adaptive", c["max"], c["budget"])} {how} #{k}', ladder, ('gauss2', 'banana', 'far', 'gauss4')[k % 4],
                        [grid * s for s in c['schedule']] if c['schedule'] else None, grid * c['max'], c['budget'],
                        dict(mcmc_steps=1 + k % 2), how, 20 + k % 7, seed + k))
    k = 0
    for where in ('gauss2', 'gauss4', 'far', 'banana', 'steep'):
        for retain, resample in ((0.9, 0.5), (0.5, 0.5), (0.7, 0.9), (0.95, 0.), (0.3, 0.2), (0.8, 1.)) if big else ((0.9, 0.5), (0.6, 0.9), (0.3, 0.25)):
            for top in (1., 0.37, 2.5) if big else ((1., 0.37, 2.5)[k % 3],):
                how = hows[k % 4]
                base, cls = ((RandomWalk, MetropolisedSMCSampler), (Underdamped, MetropolisedSMCSampler), (RandomWalk, RMMetropolisedSMCSampler))[k % 3]
                settings = dict(retain=retain, resample=resample, base=base, cls=cls, stepsize=0.1)
                if base is Underdamped:
                    settings.update(leapfrog_steps=2)
                out.append((f'adaptive {where} retain {retain} resample {resample} top {top} {how} {base.__name__}/{cls.__name__}', ladder, where, None, top, 300, settings,
                            how, (60, 7, 150)[k % 3], seed + k, (('banana', 'gauss2')[k % 2],) if where != 'gauss4' and k % 2 else ()))
                k += 1
    out += [('cliff, schedule', ladder, 'cliff', [0., 0.1, 0.5, 1.5], 1.5, 99, dict(stepsize=0.3), 'built', 40, seed),
            ('cliff, one rung', ladder, 'cliff', [0.7], 0.7, 99, dict(stepsize=0.3), 'kwargs', 40, seed),
            ('one particle', ladder, 'gauss2', None, 1., 20, dict(), 'built', 1, seed),
            ('two particles', ladder, 'gauss2', None, 1., 50, dict(retain=0.8), 'built', 2, seed),
            ('class as inner sampler', ladder, 'gauss2', [0.2, 1.], 1., 9, dict(as_class=True), 'built', 30, seed),
            ('undefined values', undefined, seed)]
    return out
