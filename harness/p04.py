"""Metropolis corrections: every transition of chains of the shipped and of user-defined samplers."""
import json
import random as pyrandom

import numpy as np
import jax.numpy as jnp

from kit import fl, vec, ints
from lib import *
from mcmclog import logged, finish, arrays
from mocat import RandomWalk, Underdamped, QNUnderdamped, Metropolis, RMMetropolis
from mocat.src.mcmc.metropolis import mh_acceptance_probability
from mocat.src.mcmc.sampler import MCMCSampler

LN2 = float(np.log(2.))


class Box(Scenario):
    """Zero potential inside a box, infinite outside; gradient defined everywhere."""
    name = 'box'
    dim = 2

    def potential(self, x, random_key=None):
        return jnp.where(jnp.all(jnp.abs(x) < 1.), 0.3 * jnp.sum(x ** 2), jnp.inf)


class Hole(Scenario):
    """Undefined on one side."""
    name = 'hole'
    dim = 2

    def potential(self, x, random_key=None):
        return jnp.sum(jnp.square(x)) - jnp.log(x[0])


class Noisy(Scenario):
    """Randomly estimated potential: accepted estimates must be kept."""
    name = 'noisy'
    sd = 0.4

    def __init__(self, dim=1):
        self.dim = dim
        super().__init__()

    def likelihood_potential(self, x, random_key=None):
        return 0.5 * jnp.sum(jnp.square(x)) + self.sd * random.normal(random_key, ())


class Lattice(Scenario):
    name = 'lattice'
    dim = 1

    def __init__(self, pot):
        self.pots = jnp.array([jnp.inf if p == 99 else p * LN2 for p in pot], dtype='float32')
        super().__init__()

    def likelihood_potential(self, x, random_key=None):
        return self.pots[jnp.round(jnp.ravel(x)[0]).astype(int) - 1]


class LatticeSampler(MCMCSampler):
    """Proposes site j from i with weight q[i][j]; uses the library's general acceptance probability."""
    name = 'lattice sampler'
    correction = Metropolis
    acceptance_probability = mh_acceptance_probability

    def __init__(self, q):
        super().__init__()
        self.q = jnp.array(q, dtype='float32')

    def startup(self, scenario, n, initial_state, initial_extra, **kwargs):
        initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
        initial_state.potential = scenario.potential(initial_state.value, initial_extra.random_key)
        return initial_state, initial_extra

    def site(self, state):
        return jnp.round(state.value[0]).astype(int) - 1

    def proposal(self, scenario, reject_state, reject_extra):
        proposed_state = reject_state.copy()
        reject_extra.random_key, k = random.split(reject_extra.random_key)
        j = random.categorical(k, jnp.log(self.q[self.site(reject_state)]))
        proposed_state.value = jnp.array([j + 1.])
        proposed_state.potential = scenario.potential(proposed_state.value, k)
        return proposed_state, reject_extra

    def proposal_potential(self, scenario, reject_state, reject_extra, proposed_state, proposed_extra):
        return -jnp.log(self.q[self.site(reject_state), self.site(proposed_state)])


class Drift(MCMCSampler):
    """Asymmetric normal proposal shrinking towards the origin."""
    name = 'drift'
    correction = Metropolis
    acceptance_probability = mh_acceptance_probability

    def __init__(self, stepsize=1., shrink=0.4):
        super().__init__()
        self.parameters.stepsize = stepsize
        self.parameters.shrink = shrink
        self.tuning.target = 0.4

    def startup(self, scenario, n, initial_state, initial_extra, **kwargs):
        initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
        initial_state.potential = scenario.potential(initial_state.value, initial_extra.random_key)
        return initial_state, initial_extra

    def proposal(self, scenario, reject_state, reject_extra):
        proposed_state = reject_state.copy()
        reject_extra.random_key, k = random.split(reject_extra.random_key)
        p = reject_extra.parameters
        proposed_state.value = p.shrink * reject_state.value + p.stepsize * random.normal(k, (scenario.dim,))
        proposed_state.potential = scenario.potential(proposed_state.value, k)
        return proposed_state, reject_extra

    def proposal_potential(self, scenario, reject_state, reject_extra, proposed_state, proposed_extra):
        p = reject_extra.parameters
        return 0.5 * jnp.sum(jnp.square((proposed_state.value - p.shrink * reject_state.value) / p.stepsize))


KINDS = dict(RandomWalk='symmetric', Underdamped='momenta', QNUnderdamped='other', Drift='drift', LatticeSampler='lattice')


def model_of(scenario):
    if not isinstance(scenario, Gaussian):
        return None
    prior = isinstance(scenario, PriorGaussian)
    cov = np.asarray(scenario.covariance, dtype=float)
    cov = np.diag(cov) if cov.ndim == 1 else cov
    return dict(mean=vec(np.asarray(scenario.mean, dtype=float) * np.ones(scenario.dim)), prec=vec(np.linalg.inv(cov)),
                priorprec=fl(1 / 1.5 ** 2 if prior else 0.), temperature=fl(scenario.temperature), inf='Infinity')


def record(rec, scenario, sampler, chain, kind, keep, model=None, cfg=None, drift=None):
    finish()
    log = sampler.log
    n = len(chain.value)
    skip = {'alpha', 'stepsize', 'threshold'}
    names = [k for k in arrays(chain) if k not in skip and k not in ('time',)]
    names = [k for k in names if len(np.shape(chain.__dict__[k])) and len(chain.__dict__[k]) == n]
    data = {k: np.asarray(chain.__dict__[k]).reshape(n, -1) for k in names}
    tags = data['tag'][:, 0]
    acc = [bool(tags[i + 1] == i + 1) for i in range(n - 1)]
    alphas = np.asarray(chain.alpha)
    if len(log) == n - 1:
        special = [i for i in range(n - 1) if not 0. < log[i][2] < 1. or not np.isfinite(log[i][1]['potential'])][:keep // 2]
        for i in sorted(set(range(min(keep, n - 1))) | set(special)):
            rej, prop, a, _, _ = log[i]
            flat = lambda s: {k: vec(np.asarray(s[k]).reshape(-1)) for k in names if k in s}
            f = dict(prev={k: vec(data[k][i]) for k in names}, rej=flat(rej), prop=flat(prop),
                     next={k: vec(data[k][i + 1]) for k in names}, alpha=fl(alphas[i + 1]), kind=kind,
                     refreshed=isinstance(sampler, (Underdamped, QNUnderdamped)),
                     etag='none' if i + 1 >= n - 1 else ('new' if log[i + 1][3] == i + 1 else 'old'))
            if model is not None:
                f['model'] = model
            elif kind != 'lattice' and not isinstance(scenario, Noisy):
                x = jnp.array(data['value'][i + 1])
                fresh = dict(potential=vec([scenario.potential(x, None)]))
                if 'grad_potential' in data:
                    fresh['grad_potential'] = vec(scenario.grad_potential(x, None))
                f['fresh'] = fresh
            if cfg is not None:
                f.update(cfg=cfg, i=int(round(float(rej['value'][0]))), j=int(round(float(prop['value'][0]))))
            if drift is not None:
                f['drift'] = drift
            rec('Move', **f)
    half = np.zeros(n - 1, int)
    if len(log) == n - 1:
        for i, (rej, prop, a, _, _) in enumerate(log):
            half[i] = int(np.ravel(prop['value'])[0] > np.ravel(rej['value'])[0]) + 2 * int(prop['potential'] > rej['potential'])
    rec('Accepts', alphas=vec(alphas[1:]), acc=acc, group=ints(half), proposals=len(log), transitions=n - 1)
    return log


def chain_case(rec, scenario, sampler, n, keep, seed, kind=None, temperature=None, initial=None, steps=False, noise=False, kwargs=None):
    scenario = scenario()
    cls, args = sampler
    sampler = logged(cls)(**args)
    if temperature is not None:
        scenario.temperature = temperature
    state = None if initial is None else cdict(value=jnp.array(initial))
    chain = run(scenario, sampler, n, key(seed), initial_state=state, **(kwargs or {}))
    drift = dict(sd=fl(args.get('stepsize', 1.)), shrink=fl(0.4)) if cls is Drift and not (kwargs or {}).get('correction') else None
    kind = kind or KINDS[cls.__name__]
    if cls is Drift and drift is None:
        kind = 'other'
    log = record(rec, scenario, sampler, chain, kind, keep, model_of(scenario), None, drift)
    if steps or noise:
        s = [float(p['stepsize']) if 'stepsize' in p else float(sampler.parameters.stepsize or 2.38 ** 2 / scenario.dim)
             for p, *_ in log]
        z = np.array([(np.ravel(p['value']) - np.ravel(r['value'])) / np.sqrt(h) for (r, p, *_), h in zip(log, s)])
        rec('Steps', z=vec(z.T))
        if noise:
            t = scenario.temperature
            w = [(float(p['potential']) / t - 0.5 * float(np.sum(np.square(p['value'])))) / scenario.sd for _, p, *_ in log]
            rec('Noise', noise=vec(w), z=vec(z[:, 0]))


def lattice_case(rec, cfg, n, seed):
    scenario = Lattice(cfg['pot'])
    sampler = logged(LatticeSampler)(cfg['q'])
    chain = run(scenario, sampler, n, key(seed), initial_state=cdict(value=jnp.array([float(cfg['start'])])))
    record(rec, scenario, sampler, chain, 'lattice', 60, None, dict(pot=cfg['pot'], q=cfg['q']))


def gauss(d, seed=3, scale=1.):
    return lambda: prior_gaussian(d, seed, scale=scale)


def plain(d, seed=5):
    return lambda: Gaussian(mean=jnp.arange(d) * 0.5 + 0.25, covariance=spd(d, seed))


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    n, keep = (12000, 300) if big else (2500, 60)
    out = []

    def add(name, *args, **kw):
        out.append((name, lambda rec: chain_case(rec, *args, **kw)))
    for rep in range(3 if big else 1):
        s = 1000 * seed + 77 * rep
        for d in ((1, 2, 3, 6) if big else (1, 3)):
            for t in (0.4, 1., 2.5):
                add(f'random walk, Gaussian d={d}, temperature {t}, #{rep}', gauss(d, 3 + rep), (RandomWalk, dict(stepsize=0.8)), n, keep, s + 1,
                    temperature=t, steps=True)
                add(f'underdamped, Gaussian d={d}, temperature {t}, #{rep}', gauss(d, 4 + rep),
                    (Underdamped, dict(stepsize=0.9, leapfrog_steps=2, friction=0.6)), n // 2, keep, s + 2, temperature=t)
        add(f'random walk default stepsize #{rep}', plain(2), (RandomWalk, dict(stepsize=2.5)), n, keep, s + 3, steps=True)
        add(f'random walk in a box #{rep}', Box, (RandomWalk, dict(stepsize=1.)), n, keep, s + 4, initial=[0.1, 0.2], steps=True)
        add(f'random walk from outside the box #{rep}', Box, (RandomWalk, dict(stepsize=1.)), 200, keep, s + 5, initial=[1.3, 0.2])
        add(f'underdamped in a box #{rep}', Box, (Underdamped, dict(stepsize=0.8, leapfrog_steps=2)), n // 2, keep, s + 6, initial=[0.1, 0.2])
        add(f'random walk next to an undefined region #{rep}', Hole, (RandomWalk, dict(stepsize=1.)), n, keep, s + 7, initial=[0.5, 0.2], steps=True)
        add(f'underdamped next to an undefined region #{rep}', Hole, (Underdamped, dict(stepsize=0.7, leapfrog_steps=3)), n // 2, keep, s + 8,
            initial=[0.5, 0.2])
        add(f'Hamiltonian, six steps #{rep}', gauss(2, 8), (Underdamped, dict(stepsize=1.1, leapfrog_steps=6)), n // 2, keep, s + 9)
        add(f'underdamped, low friction #{rep}', plain(2), (Underdamped, dict(stepsize=1., friction=0.05)), n // 2, keep, s + 10)
        for d in (1, 2):
            add(f'random potential estimates d={d} #{rep}', lambda d=d: Noisy(d), (RandomWalk, dict(stepsize=1.2)), n, keep, s + 11 + d,
                noise=True)
        add(f'random potential estimates, temperature #{rep}', lambda: Noisy(1), (RandomWalk, dict(stepsize=1.2)), n, keep, s + 15,
            noise=True, temperature=2.)
        add(f'quasi-Newton #{rep}', gauss(2, 9), (QNUnderdamped, dict(stepsize=0.6, leapfrog_steps=2, friction=1., m=5)), n // 2, keep, s + 16)
        add(f'quasi-Newton, temperature #{rep}', gauss(3, 9), (QNUnderdamped, dict(stepsize=0.8, m=4)), n // 2, keep, s + 17, temperature=0.5)
        add(f'asymmetric proposal #{rep}', gauss(2, 10), (Drift, dict(stepsize=0.9)), n, keep, s + 18)
        add(f'asymmetric proposal, temperature #{rep}', plain(3), (Drift, dict(stepsize=0.7)), n, keep, s + 19, temperature=1.7)
        for name, corr in (('class', RMMetropolis), ('instance', RMMetropolis(adapt_cut_off=300)),
                           ('nested', RMMetropolis(super_correction=Metropolis, log_update=False, rm_stepsize_scale=0.1))):
            add(f'adaptive correction ({name}), random walk #{rep}', gauss(2, 11), (RandomWalk, dict(stepsize=0.5)), n, keep, s + 20,
                kwargs=dict(correction=corr), steps=True)
            add(f'adaptive correction ({name}), underdamped #{rep}', plain(2), (Underdamped, dict(stepsize=0.5, leapfrog_steps=2)), n // 2, keep,
                s + 21, kwargs=dict(correction=corr))
        add(f'double well #{rep}', lambda: DoubleWell(2), (RandomWalk, dict(stepsize=1.)), n, keep, s + 22, steps=True)
        add(f'double well, underdamped, temperature #{rep}', lambda: DoubleWell(2), (Underdamped, dict(stepsize=0.5, leapfrog_steps=4)), n // 2,
            keep, s + 23, temperature=0.5)
        add(f'Rastrigin #{rep}', lambda: Rastrigin(2), (RandomWalk, dict(stepsize=1.)), n, keep, s + 24)
    configs = json.load(open(casefile))
    if not big:
        configs = pyrandom.Random(seed).sample(configs, 48)
    for c in configs:
        out.append((f'lattice potentials {c["pot"]} proposals {c["q"]} from {c["start"]}', lattice_case, c, 1500 if big else 600, seed))
    return out
