"""Adaptive corrections: every iteration of chains whose metric is prescribed, and of the shipped samplers."""
import json
import random as pyrandom

import numpy as np
import jax.numpy as jnp

from kit import fl, vec, ints
from lib import *
from mocat import RandomWalk, Underdamped, QNUnderdamped, Metropolis, RMMetropolis, Uncorrected
from mocat.abc import RandomWalkABC
from mocat.src.abc.mcmc import RMMetropolisDiagStepsize
from mocat.src.mcmc.sampler import MCMCSampler


class Prescribed(MCMCSampler):
    """Its metric is prescribed; it records the parameter each proposal was made with."""
    name = 'prescribed'

    def __init__(self, metrics, target, mono, scale=None):
        self.tuning = cdict(parameter='scale', target=target, metric='quality', monotonicity=mono)
        super().__init__()
        self.metrics = jnp.array(metrics, dtype='float32')
        self.parameters.scale = scale

    def startup(self, scenario, n, initial_state, initial_extra, **kwargs):
        initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
        initial_state.quality = jnp.array(0.)
        initial_state.used = jnp.array(0.)
        return initial_state, initial_extra

    def proposal(self, scenario, reject_state, reject_extra):
        proposed_state = reject_state.copy()
        proposed_state.quality = self.metrics[reject_extra.iter - 1]
        proposed_state.used = jnp.asarray(reject_extra.parameters.scale, dtype='float32')
        return proposed_state, reject_extra


def config(corr, target, mono):
    cut = corr['adapt_cut_off']
    return dict(mono=mono, log=corr['log_update'], cut=1000000 if np.isinf(cut) else int(cut), scale=fl(corr['rm_stepsize_scale']),
                expo=fl(corr['rm_stepsize_neg_exponent']), target=fl(target))


DEFAULTS = dict(adapt_cut_off=np.inf, rm_stepsize_scale=1., rm_stepsize_neg_exponent=2 / 3, log_update=True)


def prescribed(rec, metrics, mono, corr, scale, dim=1, target=1., how='instance', numeric=False, reuse=False):
    full = dict(DEFAULTS, **corr)
    sampler = Prescribed(metrics, target, mono if numeric else {1: 'increasing', -1: 'decreasing'}[mono], scale)
    n = len(metrics) + 1
    scenario = Gaussian(dim)
    if reuse:
        run(scenario, sampler, 3, key(5), correction=RMMetropolis(super_correction=Uncorrected))
    if how == 'instance':
        chain = run(scenario, sampler, n, key(0), correction=RMMetropolis(super_correction=Uncorrected, **corr))
    else:
        chain = run(scenario, sampler, n, key(0), correction=RMMetropolis, super_correction=Uncorrected(), **corr)
    p = np.asarray(chain.scale)
    rec('Start', cfg=config(full, target, mono), p=fl(p[0]), supplied='none' if scale is None else fl(scale), default=fl(2.38 ** 2 / dim))
    for i in range(1, n):
        rec('Step', i=i, p=fl(p[i]), m=fl(chain.quality[i]), used=fl(chain.used[i]))


def shipped(rec, scenario, sampler, n, seed, corr, cls=RMMetropolis, sup=None, target=None, how='instance', late=False):
    scenario = scenario()
    full = dict(DEFAULTS, **corr)
    kwargs = dict(corr)
    if sup is not None:
        kwargs['super_correction'] = sup() if how == 'class' and isinstance(sup, type) else sup
    if target is not None:
        sampler.tuning.target = target
    tuned = sampler.tuning.parameter
    supplied = getattr(sampler.parameters, tuned)
    mono = 1 if sampler.tuning.monotonicity in (1, 'increasing') else -1
    if how == 'instance':
        chain = run(scenario, sampler, n, key(seed), correction=cls(**kwargs))
    else:
        chain = run(scenario, sampler, n, key(seed), correction=cls, **kwargs)
    p = np.asarray(chain.__dict__[tuned])
    diag = cls is RMMetropolisDiagStepsize
    default = 50. if diag else 2.38 ** 2 / scenario.dim
    extra = lambda i: dict(x=vec(chain.value[i]), step=vec(chain.stepsize[i])) if diag else {}
    step0 = getattr(sampler.parameters, 'stepsize', None)
    rec('Start', cfg=config(full, sampler.tuning.target, mono), p=fl(p[0]), supplied='none' if supplied is None else fl(supplied),
        default=fl(default), step0=fl(1. if step0 is None else step0), **extra(0))
    for i in range(1, n):
        rec('Step', i=i, p=fl(p[i]), m=fl(chain.alpha[i]), used='none', **extra(i))
    if late:
        rec('Target', mean=fl(np.mean(np.asarray(chain.alpha)[n // 2:])), target=fl(sampler.tuning.target), tol=fl(0.12))


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = np.random.RandomState(seed)
    out = []
    configs = json.load(open(casefile))
    if not big:
        configs = pyrandom.Random(seed).sample(configs, 64)
    else:
        configs = pyrandom.Random(seed).sample(configs, 600)
    for k, c in enumerate(configs):
        corr = dict(adapt_cut_off=np.inf if c['cut'] == 1000000 else c['cut'], log_update=c['log'], rm_stepsize_scale=(1., 0.3, 2.)[k % 3])
        out.append((f'prescribed metrics {c["ms"]} direction {c["mono"]} log {c["log"]} cut-off {c["cut"]} #{k % 3}', prescribed, c['ms'], c['mono'], corr,
                    (3., 1., None)[(k // 3) % 3], 1 + k % 3, 1., ('instance', 'class')[k % 2], k % 5 == 0, k % 7 < 2))
    for k in range(40 if big else 8):
        corr = dict(adapt_cut_off=(np.inf, 17, 1)[k % 3], rm_stepsize_scale=(0.5, 2., 1.)[k % 3], rm_stepsize_neg_exponent=(0.6, 1., 0.51)[k % 3],
                    log_update=bool(k % 2))
        out.append((f'long prescribed metrics #{k}', prescribed, list(np.round(rng.uniform(size=40), 3)), (1, -1)[(k // 2) % 2], corr,
                    (2., None)[k % 2], 2, 0.3, ('instance', 'class')[(k // 2) % 2]))
    g = lambda d: lambda: prior_gaussian(d, 3)
    for rep in range(4 if big else 1):
        s = seed * 100 + rep
        n = 400 if big else 120
        for how in ('instance', 'class'):
            out += [(f'random walk ({how}) #{rep}', shipped, g(2), RandomWalk(), n, s, {}, RMMetropolis, None, None, how),
                    (f'random walk, cut-off, exponent ({how}) #{rep}', shipped, g(3), RandomWalk(stepsize=9.), n, s + 1,
                     dict(adapt_cut_off=50, rm_stepsize_neg_exponent=0.9, rm_stepsize_scale=3.), RMMetropolis, None, 0.4, how),
                    (f'underdamped, linear scale ({how}) #{rep}', shipped, g(2), Underdamped(stepsize=0.7, leapfrog_steps=2), n, s + 2,
                     dict(log_update=False, rm_stepsize_scale=0.2), RMMetropolis, Metropolis(), None, how),
                    (f'quasi-Newton ({how}) #{rep}', shipped, g(2), QNUnderdamped(m=4), n, s + 3, dict(adapt_cut_off=30), RMMetropolis, Metropolis, None, how),
                    (f'simulator-based random walk ({how}) #{rep}', shipped, lambda: LinearABC(2), RandomWalkABC(), n, s + 4, {},
                     RMMetropolisDiagStepsize, None, None, how),
                    (f'simulator-based random walk, settings ({how}) #{rep}', shipped, lambda: LinearABC(3), RandomWalkABC(threshold=4., stepsize=0.5), n, s + 5,
                     dict(adapt_cut_off=60, rm_stepsize_scale=0.7, rm_stepsize_neg_exponent=0.8), RMMetropolisDiagStepsize, None, 0.3, how),
                    (f'simulator-based random walk, threshold only ({how}) #{rep}', shipped, lambda: LinearABC(2), RandomWalkABC(threshold=4., stepsize=0.5), n,
                     s + 6, dict(rm_stepsize_scale=0.5), RMMetropolis, None, 0.3, how)]
        out += [(f'random walk reaches its target acceptance #{rep}', shipped, g(2), RandomWalk(stepsize=40.), 4000, s + 7, {}, RMMetropolis, None, None, 'instance', True),
                (f'underdamped reaches its target acceptance #{rep}', shipped, g(2), Underdamped(stepsize=0.01), 3000, s + 8, {}, RMMetropolis, None, None, 'instance', True),
                (f'simulator-based random walk reaches its target acceptance #{rep}', shipped, lambda: LinearABC(2), RandomWalkABC(stepsize=0.5, threshold=30.), 4000, s + 9, {},
                 RMMetropolis, None, None, 'instance', True)]
    return out
