"""Simulator-based ensembles: schedules enumerated by TLC on lattice models, and adaptive runs."""
import json
import random as pyrandom

from abcrun import *
from mocat.abc import MetropolisedABCSMCSampler

NAMES = ('value', 'prior_potential', 'simulated_data', 'distance')


class ProbeABC(RandomWalkABC):
    """Remembers, in the state, what was proposed and with which parameters."""

    def always(self, abc_scenario, reject_state, reject_extra):
        reject_state, reject_extra = super().always(abc_scenario, reject_state, reject_extra)
        if hasattr(reject_state, 'count'):
            reject_state.count = reject_state.count + 1.
        return reject_state, reject_extra

    def acceptance_probability(self, abc_scenario, reject_state, reject_extra, proposed_state, proposed_extra):
        alpha = super().acceptance_probability(abc_scenario, reject_state, reject_extra, proposed_state, proposed_extra)
        if hasattr(reject_state, 'count'):
            memory = {f'rej_{k}': reject_state.__dict__[k] for k in NAMES}
            memory.update({f'prop_{k}': proposed_state.__dict__[k] for k in NAMES})
            memory.update(prop_alpha=alpha * jnp.ones(()), seen=reject_extra.parameters.threshold * jnp.ones(()),
                          used=reject_extra.parameters.stepsize * jnp.ones(abc_scenario.dim))
            for s in (reject_state, proposed_state):
                for k, v in memory.items():
                    setattr(s, k, v)
                s.total = s.total + jnp.nan_to_num(alpha)
        return alpha


def start(scenario, n, seed):
    values = jax.vmap(scenario.prior_sample)(random.split(key(seed + 1000), n))
    data = jax.vmap(scenario.likelihood_sample)(values, random.split(key(seed + 2000), n))
    z = jnp.zeros(n)
    memory = {f'{w}_{k}': v for w in ('rej', 'prop') for k, v in dict(value=values * 0., prior_potential=z, simulated_data=data * 0., distance=z).items()}
    return cdict(value=values, tag=jnp.arange(n) * 1., count=z, total=z, prop_alpha=z, seen=z, used=jnp.zeros((n, scenario.dim)), **memory)


def ensemble(chain, i):
    d = {k: np.asarray(v[i]) for k, v in chain.__dict__.items() if isinstance(v, jnp.ndarray) and np.ndim(v) > 0 and len(v) > i}
    sub = lambda k, pre: dict(x=vec(np.ravel(d[pre + 'value'][k])), prior=fl(d[pre + 'prior_potential'][k]), y=vec(np.ravel(d[pre + 'simulated_data'][k])),
                              distance=fl(d[pre + 'distance'][k]))
    return [dict(sub(k, ''), lw=fl(d['log_weight'][k]), tag=int(d['tag'][k]), count=int(d['count'][k]), alpha=fl(d['alpha'][k]), seen=fl(d['seen'][k]), total=fl(d['total'][k]),
                 used=vec(d['used'][k]), propalpha=fl(np.nan_to_num(d['prop_alpha'][k])), prop=sub(k, 'prop_'), rej=sub(k, 'rej_')) for k in range(len(d['value']))]


def smc(rec, scenario, n, seed, schedule=None, retain=0.9, resample=0.5, termination=0.01, moves=1, stepsize=None, max_iter=8, how='built'):
    scenario = scenario()
    settings = dict(ess_threshold_retain=retain, ess_threshold_resample=resample, termination_alpha=termination)
    sched = None if schedule is None else jnp.array(schedule, dtype='float32')
    inner = None if stepsize is None else ProbeABC(stepsize=stepsize)
    kw = {}
    if how == 'built':
        s = MetropolisedABCSMCSampler(inner, mcmc_steps=moves, threshold_schedule=sched, **({} if schedule is not None else dict(max_iter=max_iter)), **settings)
    else:
        s = MetropolisedABCSMCSampler(inner, mcmc_steps=moves, threshold_schedule=None if schedule is not None else jnp.array([2., 1.]))
        run(LinearABC(2, 2), s, 20, key(5), **(dict(threshold_schedule=sched) if schedule is not None and seed % 2 else {}))
        kw = dict(settings, threshold_schedule=sched)
        if schedule is None:
            kw['max_iter'] = max_iter
    if inner is None:
        s.mcmc_sampler = ProbeABC()
    chain = run(scenario, s, n, key(seed), initial_state=start(scenario, n, seed), **kw)
    m = len(chain.value)
    rec('Config', cfg=dict(adaptive=schedule is None, schedule=[] if schedule is None else vec(np.asarray(sched)), retain=fl(np.float32(retain)), resample=fl(np.float32(resample)),
                           termination=fl(termination), moves=moves, maxiter=max_iter if schedule is None else len(schedule), default=stepsize is None,
                           model=model_of(scenario)))
    alphas, accepted, z, noise = [], 0, [], []
    for i in range(m):
        ps = ensemble(chain, i)
        rec('Start' if i == 0 else 'Step', i=i, thr=fl(chain.threshold[i]), ess=fl(chain.ess[i]), ps=ps)
        if i:
            before = np.asarray(chain.count[i - 1])
            for k in range(n):
                if float(chain.seen[i][k]) == float(chain.threshold[i - 1]) and ps[k]['count'] > 0 and float(ps[k]['count']) >= i * 0 + 1 and \
                        (np.asarray(chain.log_weight[i - 1])[k] == 0. or ps[k]['tag'] != int(chain.tag[i - 1][k]) or ps[k]['count'] != int(before[k])):
                    alphas.append(float(ps[k]['propalpha']))
                    accepted += ps[k]['x'] == ps[k]['prop']['x'] and ps[k]['x'] != ps[k]['rej']['x']
                    rej, prop = np.asarray(chain.rej_value[i][k]), np.asarray(chain.prop_value[i][k])
                    z.append((prop - rej) / np.sqrt(np.asarray(chain.used[i][k])))
                    if not isinstance(scenario, LatticeABC):
                        noise.append((np.ravel(chain.prop_simulated_data[i][k]) - np.asarray(scenario.a) @ prop) / scenario.sd)
    rec('End', n=n)
    if len(z):
        rec('Moves', alphas=vec(np.array(alphas)), accepted=int(accepted), z=vec(np.array(z).T), noise=vec(np.array(noise).T) if noise else [])


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    out = []
    configs = json.load(open(casefile))
    rng = pyrandom.Random(seed)
    if not big:
        configs = rng.sample(configs, 14)
    for k, c in enumerate(configs):
        cfg = dict(prior=[(1, 2, 1), (2, 0, 1), (1, 1, 3)][k % 3], sim=[[[2, 1, 1], [1, 2, 1], [1, 1, 2]], [[0, 2, 2], [3, 1, 0], [1, 0, 3]]][k % 2],
                   dist=[[0, 1, 2], [1, 3, 2]][(k // 2) % 2])
        cfg['prior'] = list(cfg['prior'])
        sched = [float(t) + (1. if k % 5 else 0.) for t in c['schedule']] or None
        out.append((f'lattice thresholds {sched} resampling below {c["res"]} of 3 #{k}', smc, lambda cfg=cfg: LatticeABC(cfg), (40, 41, 9)[k % 3] if k % 5 else 60, seed + k,
                    sched, (0.9, 0.6)[k % 2], c['res'] / 3., -1., 1 + k % 2, (1., None)[k % 2], 3, ('built', 'used')[k % 2]))
    table = lambda: LatticeABC(dict(prior=[1, 2, 1], sim=[[2, 1, 1], [1, 2, 1], [1, 1, 2]], dist=[0, 1, 2]))
    out.append(('lattice thresholds down to zero', smc, table, 60, seed, [2., 1., 0.], 0.9, 0.1, -1., 1, 1.))
    out.append(('lattice, half alive', smc, table, 64, seed, [2., 1., 1., 1.], 0.9, 48 / 64, -1., 1, 1.))
    for rep in range(6 if big else 1):
        s = seed * 100 + 13 * rep
        n = (250, 60, 600)[rep % 3]
        lin = lambda sd=0.5, dim=2: (lambda: LinearABC(dim, 2, sd, rep))
        box = lambda: Bounded(2, 2, 0.4, 1)
        out += [(f'adaptive, default moves #{rep}', smc, lin(), n, s, None, 0.9, 0.5, 0.01, 1, None, 12),
                (f'adaptive, default moves, used before #{rep}', smc, lin(0.5, 3), n, s + 1, None, 0.5, 0.8, 0.2, 1, None, 12, 'used'),
                (f'adaptive, two moves #{rep}', smc, lin(), n, s + 2, None, 0.7, 0.5, 0.01, 2, 0.3, 6),
                (f'adaptive, three moves, ends early #{rep}', smc, lin(0.1), n, s + 3, None, 0.5, 0.5, 0.3, 3, 0.8, 40),
                (f'adaptive, never resample #{rep}', smc, lin(), n, s + 4, None, 0.8, 0., 0.01, 1, 0.3, 6),
                (f'adaptive, always resample #{rep}', smc, lin(), n, s + 5, None, 0.8, 1.1, 0.01, 1, 0.3, 6),
                *[(f'adaptive, ends when the living accept below {t} #{rep}', smc, lin(), n // 2, s + 20 + k, None, 0.7, 0., t, 1 + k % 2, 0.5, 25)
                  for k, t in enumerate((0.05, 0.12, 0.2, 0.3))],
                *[(f'adaptive, ends when the moved accept below {t} #{rep}', smc, lin(), n, s + 30 + k, None, 0.4, 0., t, 1, 0.2, 25)
                  for k, t in enumerate((0.2, 0.3, 0.4, 0.5))],
                (f'adaptive, keep everything #{rep}', smc, lin(), n, s + 6, None, 1., 0.5, 0.01, 1, 0.3, 4),
                (f'adaptive, ends at once #{rep}', smc, lin(), n, s + 7, None, 0.9, 0.5, 1., 1, 0.3, 4),
                (f'schedule, bounded prior #{rep}', smc, box, n, s + 8, [2., 1.5, 1.2, 1.], 0.9, 0.5, 0.01, 1, 0.4),
                (f'schedule, bounded prior, used before #{rep}', smc, box, n, s + 9, [2., 1.5, 1.2], 0.9, 0.9, 0.01, 2, 0.4, 9, 'used'),
                (f'schedule with repeats #{rep}', smc, lin(), n, s + 10, [4., 4., 2., 2.], 0.9, 0.5, 0.01, 1, None, 9),
                (f'schedule that rises again #{rep}', smc, lin(), n, s + 11, [3., 2., 2.5], 0.9, 0.3, 0.01, 1, None, 9),
                (f'schedule from infinity #{rep}', smc, lin(), n, s + 12, [np.inf, 3.], 0.9, 0.5, 0.01, 1, 0.5, 9),
                (f'few particles #{rep}', smc, lin(), 5, s + 13, None, 0.9, 0.7, 0.01, 1, 0.5, 6)]
    return out
