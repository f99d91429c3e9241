"""Exact draws pushed through the real transitions, many chains at once; evidence over many small ensembles."""
import numpy as np
import jax
import jax.numpy as jnp
from jax import random

from kit import fl, vec, ints
from lib import *
from mocat import RandomWalk, Underdamped, Metropolis, RMMetropolis, MetropolisedSMCSampler
from mocat.src.mcmc.metropolis import mh_acceptance_probability
from mocat.src.mcmc.sampler import MCMCSampler
from mocat.src.abc.mcmc import RandomWalkABC


def push(scenario, sampler, starts, steps, seed, kwargs=None, prepare=None):
    """starts: dict of arrays with a leading chain axis.  The state after `steps` transitions of every chain."""
    n = len(starts['value'])

    def one(start, k):
        state, extra = sampler.startup(scenario, steps + 1, cdict(**start), cdict(random_key=k), **(kwargs or {}))
        if prepare is not None:
            state = prepare(state)
        carry = jax.tree_util.tree_map(lambda a: jnp.asarray(a), (state, extra))

        def body(c, _):
            return sampler.update(scenario, *c), None
        (state, extra), _ = jax.lax.scan(body, carry, None, length=steps)
        return {k: v for k, v in state.__dict__.items() if k in ('value', 'momenta', 'distance', 'potential')}
    starts = {k: jnp.asarray(v, dtype='float32') for k, v in starts.items()}
    return jax.jit(jax.vmap(one))(starts, random.split(key(seed), n))


class Autoregressive(MCMCSampler):
    """Proposal a + rho (x - a) + noise of two scales: not symmetric; uses the general acceptance probability."""
    name = 'autoregressive'
    correction = Metropolis
    acceptance_probability = mh_acceptance_probability

    def __init__(self, rho=0.6, centre=0.8, sd=0.7):
        super().__init__()
        self.rho, self.centre, self.sd = rho, centre, sd

    def startup(self, scenario, n, initial_state, initial_extra, **kwargs):
        initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
        initial_state.potential = scenario.potential(initial_state.value, initial_extra.random_key)
        return initial_state, initial_extra

    def mean(self, x):
        return self.centre + self.rho * (x - self.centre)

    def scale(self, x):
        return self.sd * (1. + 0.5 * (jnp.sum(x) > 0.5))

    def proposal(self, scenario, reject_state, reject_extra):
        proposed = reject_state.copy()
        reject_extra.random_key, k, s = random.split(reject_extra.random_key, 3)
        x = reject_state.value
        proposed.value = self.mean(x) + self.scale(x) * random.normal(k, x.shape)
        proposed.potential = scenario.potential(proposed.value, s)
        return proposed, reject_extra

    def proposal_potential(self, scenario, reject_state, reject_extra, proposed_state, proposed_extra):
        x, y = reject_state.value, proposed_state.value
        sc = self.scale(x)
        return 0.5 * jnp.sum(jnp.square((y - self.mean(x)) / sc)) + x.size * jnp.log(sc)


def target_of(scenario, t):
    c = np.asarray(scenario.covariance, dtype=float)
    return dict(mean=vec(scenario.mean), cov=vec(c), sd=fl(scenario.prior_sd), t=fl(t))


def posterior(scenario, t):
    c, m = np.asarray(scenario.covariance, dtype=float), np.asarray(scenario.mean, dtype=float)
    p = np.eye(len(m)) / scenario.prior_sd ** 2 + t * np.linalg.inv(c)
    s = np.linalg.inv(p)
    return s @ (t * np.linalg.inv(c) @ m), s


def moments(rec, d, k, t, sampler, n, steps, seed, momenta=False, kwargs=None, later=None):
    scenario = prior_gaussian(d, k)
    scenario.temperature = t
    m, s = posterior(scenario, t)
    rng = np.random.RandomState(seed + 7)
    x = m + rng.normal(size=(n, d)) @ np.linalg.cholesky(s).T
    starts = dict(value=x)
    if momenta:
        starts['momenta'] = rng.normal(size=(n, d))
    sampler = sampler()
    if later:
        for name, value in later.items():
            setattr(sampler.parameters if hasattr(sampler.parameters, name) else sampler, name, value)
    out = push(scenario, sampler, starts, steps, seed, kwargs)

    def joint(st):
        z = np.asarray(st['value'], dtype=float)
        return np.concatenate([z, np.asarray(st['momenta'], dtype=float)], 1) if momenta else z
    a, b = joint(starts), joint(out)
    moved = np.mean(np.any(np.asarray(out['value']) != np.asarray(x, dtype='float32'), axis=1)) * n
    rec('Moments', target=target_of(scenario, t), n=n, momenta=d if momenta else 0, start1=vec(a.sum(0)), start2=vec(a.T @ a),
        s1=vec(b.sum(0)), s2=vec(b.T @ b), moved=fl(moved))


# one-dimensional potentials (per coordinate), own formulas
WELL = dict(kind='doublewell')
RAST = dict(kind='rastrigin', a=fl(1.5))
MIX = dict(kind='mixture', weights=vec([0.2, 0.5, 0.3]), means=vec([[-2.], [0.5], [2.]]), covs=vec([[[0.4]], [[0.3]], [[1.2]]]))


class WithPrior:
    prior_sd = 1.5

    def prior_potential(self, x, random_key=None):
        return 0.5 * jnp.sum(jnp.square(x / self.prior_sd), axis=-1)


class PriorWell(WithPrior, DoubleWell):
    pass


class PriorRastrigin(WithPrior, Rastrigin):
    pass


class PriorMixture(WithPrior, GaussianMixture):
    pass


def lik(kind, x):
    if kind == 'doublewell':
        return x ** 4 / 4 - x ** 2 / 2
    if kind == 'rastrigin':
        return 1.5 + x ** 2 - 1.5 * np.cos(2 * np.pi * x)
    w, m, c = np.array([0.2, 0.5, 0.3]), np.array([-2., 0.5, 2.]), np.array([0.4, 0.3, 1.2])
    return -np.log((w / np.sqrt(2 * np.pi * c) * np.exp(-0.5 * (x[..., None] - m) ** 2 / c)).sum(-1))


SHAPES = {'doublewell': (lambda d: PriorWell(dim=d), WELL),
          'rastrigin': (lambda d: PriorRastrigin(dim=d, a=1.5), RAST),
          'mixture': (lambda d: PriorMixture(means=jnp.array([-2., 0.5, 2.]), covariances=jnp.array([[[0.4]], [[0.3]], [[1.2]]]),
                                             weights=jnp.array([0.2, 0.5, 0.3])), MIX)}


class NoisyWell(WithPrior, Scenario):
    """Randomly estimated likelihood: exp(-estimate) is unbiased up to a constant, so that keeping accepted estimates is exact."""
    name = 'noisy well'
    noise = 0.8

    def __init__(self, dim=1):
        self.dim = dim
        super().__init__()

    def likelihood_potential(self, x, random_key=None):
        return jnp.sum(jnp.power(x, 4) / 4. - jnp.square(x) / 2.) + self.noise * random.normal(random_key, ())


def draw(density, n, rng, lim):
    grid = np.linspace(-lim, lim, 200001)
    f = density(grid)
    cdf = np.concatenate([[0.], np.cumsum((f[1:] + f[:-1]) / 2)])
    return np.interp(rng.uniform(size=n) * cdf[-1], cdf, grid)


def edges_of(x, bins):
    q = np.quantile(x, np.linspace(0, 1, bins + 1)[1:-1])
    return np.concatenate([[-9.], np.round(q, 3), [9.]])


def count(x, edges):
    return [int(c) for c in np.histogram(np.asarray(x, dtype=float), edges)[0]]


def bins(rec, kind, d, t, sampler, n, steps, seed, momenta=False, kwargs=None, noisy=False):
    make, model = SHAPES[kind]
    scenario = NoisyWell(d) if noisy else make(d)
    scenario.temperature = t
    rng = np.random.RandomState(seed + 3)
    x = draw(lambda g: np.exp(-0.5 * (g / 1.5) ** 2 - t * lik(kind, g)), n * d, rng, 9.).reshape(n, d).astype('float32')
    starts = dict(value=x)
    if momenta:
        starts['momenta'] = rng.normal(size=(n, d))
    prepare = None
    if noisy:
        # the estimate that belongs to an exact draw of the extended target
        sd = t * scenario.noise
        starts['estimate'] = rng.normal(size=n) * sd - sd ** 2

        def prepare(state):
            u = scenario.prior_potential(state.value, key(0)) + t * jnp.sum(state.value ** 4 / 4. - state.value ** 2 / 2.)
            state.potential = u + state.estimate
            del state.estimate
            return state
    out = push(scenario, sampler(), starts, steps, seed, kwargs, prepare)
    y = np.asarray(out['value'])
    edges = edges_of(x[:, 0], 14)
    both = []
    if d > 1:
        med = float(np.median(x[:, 0]))
        a, b = y[:, 0] > med, y[:, 1] > med
        both = [fl((a & b).sum()), fl(a.sum()), fl(b.sum())]
    rec('Bins', target=dict(t=fl(t), prior=vec([0.5 / 1.5 ** 2, 0., 0.]), **model), n=n, edges=vec(edges), panels=24,
        start=[count(x[:, i], edges) for i in range(d)], counts=[count(y[:, i], edges) for i in range(d)], both=both,
        moved=fl(np.mean(np.any(y != x, axis=1)) * n))


class LineABC(mabc.ABCScenario):
    name = 'line'
    dim = 1
    a, noise, mean, sd = 1.3, 0.4, 0.2, 1.1

    def __init__(self, y):
        self.data = jnp.array([y])
        super().__init__()

    def prior_potential(self, x, random_key=None):
        return 0.5 * jnp.sum(jnp.square((x - self.mean) / self.sd))

    def prior_sample(self, random_key):
        return self.mean + self.sd * random.normal(random_key, (1,))

    def likelihood_sample(self, x, random_key):
        return self.a * x + self.noise * random.normal(random_key, (1,))


def abc(rec, y, threshold, sampler, n, steps, seed, kwargs=None):
    scenario = LineABC(y)
    rng = np.random.RandomState(seed + 5)
    xs, ss = [], []
    while sum(map(len, xs)) < n:
        x = (scenario.mean + scenario.sd * rng.normal(size=4 * n)).astype('float32')
        s = (scenario.a * x + scenario.noise * rng.normal(size=4 * n)).astype('float32')
        ok = np.abs(s - y) < threshold
        xs.append(x[ok])
        ss.append(s[ok])
    x, s = np.concatenate(xs)[:n], np.concatenate(ss)[:n]
    out = push(scenario, sampler(), dict(value=x[:, None], simulated_data=s[:, None], distance=np.abs(s - y)), steps, seed, kwargs)
    z = np.asarray(out['value'])[:, 0]
    edges = edges_of(x, 14)
    rec('Abc', target=dict(data=fl(y), threshold=fl(threshold), a=fl(scenario.a), noise=fl(scenario.noise), mean=fl(scenario.mean), sd=fl(scenario.sd)),
        n=n, edges=vec(edges), panels=24, start=[count(x, edges)], counts=[count(z, edges)], outside=int(np.sum(np.asarray(out['distance']) >= threshold)),
        moved=fl(np.mean(z != x) * n))


def evidence(rec, d, k, sampler, schedule, particles, moves, resample, runs, seed, correction=None):
    scenario = prior_gaussian(d, k, scale=2.)
    kw = {} if correction is None else dict(mcmc_correction=correction)
    s = MetropolisedSMCSampler(sampler(), mcmc_steps=moves, temperature_schedule=jnp.array(schedule), ess_threshold_resample=resample, **kw)
    steps = len([t for t in schedule if t > 0])

    def one(k):
        state, extra = s.startup(scenario, particles, None, cdict(random_key=k))
        for _ in range(steps - 1):
            state, extra = s.update(scenario, state, extra)
        w = jax.nn.softmax(state.log_weight)
        return state.log_norm_constant[0], w @ state.value, w @ state.value ** 2, state.temperature[0]
    lz, m, v, temp = (np.asarray(a, dtype=float) for a in jax.jit(jax.vmap(one))(random.split(key(seed), runs)))
    # likelihood potential of the scenario without its constant
    const = float(scenario.likelihood_potential(scenario.mean, key(0)))
    lz = lz + schedule[-1] * const
    ref = float(np.median(lz))
    z = np.exp(lz - ref)
    zm, zv = z[:, None] * m, z[:, None] * v
    rec('Evidence', target=target_of(scenario, schedule[-1]), n=runs, ref=fl(ref), z1=fl(z.sum()), z2=fl((z ** 2).sum()),
        m1=vec(zm.sum(0)), m2=vec((zm ** 2).sum(0)), v1=vec(zv.sum(0)), v2=vec((zv ** 2).sum(0)))


def cases(tier, seed):
    big = tier == 'thorough'
    n = 400000 if big else 100000
    runs = 60000 if big else 15000
    out = []
    for rep in range(4 if big else 1):
        s = 1000 * seed + 50 * rep

        def add(name, func, *args, **kw):
            out.append((f'{name} #{rep}', lambda rec: func(rec, *args, **kw)))
        rw = lambda h: (lambda: RandomWalk(stepsize=h))
        ud = lambda **a: (lambda: Underdamped(**a))
        # Gaussian targets
        for j, (d, t, h) in enumerate(((1, 1., 2.), (2, 1., 0.8), (2, 0.3, 1.5), (4, 1., 0.4), (3, 2., 0.5))):
            add(f'random walk d={d} t={t}', moments, d, j + rep, t, rw(h), n, 40, s + j)
        add('random walk vector stepsize', moments, 3, 2 + rep, 0.6, lambda: RandomWalk(stepsize=jnp.array([0.3, 1., 2.])), n, 40, s + 6)
        add('random walk stepsize by keyword', moments, 2, 3 + rep, 1., lambda: RandomWalk(), n, 30, s + 7, kwargs=dict(stepsize=1.2))
        add('random walk stepsize set later', moments, 2, 4 + rep, 0.5, lambda: RandomWalk(), n, 30, s + 8, later=dict(stepsize=1.))
        add('random walk frozen adaptation', moments, 2, 5 + rep, 0.7, rw(1.), n, 30, s + 9, kwargs=dict(correction=RMMetropolis(adapt_cut_off=0)))
        add('asymmetric proposal', moments, 1, 6 + rep, 0.8, lambda: Autoregressive(), n, 40, s + 10)
        add('asymmetric proposal d=2', moments, 2, 7 + rep, 1., lambda: Autoregressive(0.3, -0.5, 0.9), n, 40, s + 11)
        j = 0
        for friction in (np.inf, 0.3, 3., 0.):
            for steps, h in ((1, 0.9), (3, 0.5), (8, 0.35)):
                d, t = ((2, 1.), (3, 0.4), (1, 2.))[j % 3]
                add(f'underdamped friction={friction} leapfrog={steps} d={d} t={t}', moments, d, j + rep, t,
                    ud(stepsize=h if t < 1.5 else 0.4, leapfrog_steps=steps, friction=friction), n, 25, s + 20 + j, momenta=True)
                j += 1
        add('underdamped settings by keyword', moments, 2, 3 + rep, 0.6, ud(stepsize=0.2), n, 25, s + 40, momenta=True,
            kwargs=dict(stepsize=0.7, leapfrog_steps=4, friction=1.))
        add('underdamped frozen adaptation', moments, 2, 4 + rep, 0.6, ud(stepsize=0.8, leapfrog_steps=2, friction=0.5), n, 25, s + 41, momenta=True,
            kwargs=dict(correction=RMMetropolis(adapt_cut_off=0)))
        # shapes
        j = 0
        for kind in ('doublewell', 'rastrigin', 'mixture'):
            for t in (1., 0.35):
                d = 2 if kind != 'mixture' and t == 1. else 1
                add(f'random walk {kind} d={d} t={t}', bins, kind, d, t, rw(1.5), n, 40, s + 60 + j)
                add(f'underdamped {kind} d={d} t={t}', bins, kind, d, t, ud(stepsize=0.15 if kind == 'rastrigin' else 0.35, leapfrog_steps=3, friction=(0.5, np.inf)[j % 2]), n, 25,
                    s + 70 + j, momenta=True)
                add(f'asymmetric {kind} d={d} t={t}', bins, kind, d, t, lambda: Autoregressive(), n, 40, s + 80 + j)
                j += 1
        add('noisy likelihood, random walk', bins, 'doublewell', 1, 1., rw(1.5), n, 40, s + 90, noisy=True)
        add('noisy likelihood, random walk t=0.5', bins, 'doublewell', 1, 0.5, rw(1.5), n, 40, s + 91, noisy=True)
        add('noisy likelihood, asymmetric', bins, 'doublewell', 1, 1., lambda: Autoregressive(), n, 40, s + 92, noisy=True)
        # simulators
        for j, (y, th) in enumerate(((0.5, 0.6), (2.5, 0.3), (-1., 2.))):
            add(f'simulator data={y} threshold={th}', abc, y, th, lambda th=th: RandomWalkABC(threshold=th, stepsize=0.8), n, 40, s + 100 + j)
        add('simulator threshold by keyword', abc, 0.5, 0.5, lambda: RandomWalkABC(), n, 40, s + 104, kwargs=dict(threshold=0.5, stepsize=0.5))
        # evidence
        for j, (d, schedule, particles, moves, resample) in enumerate((
                (1, [0.2, 0.5, 1.], 8, 1, 0.5), (2, [0., 0.1, 0.4, 1.], 12, 2, 1.), (2, [0.3, 0.8], 6, 1, 0.), (1, [0.05, 0.3, 0.9, 1.5], 10, 3, 0.7))):
            add(f'evidence random walk {j}', evidence, d, j + rep, lambda: RandomWalk(stepsize=1.), schedule, particles, moves, resample, runs, s + 120 + j)
            add(f'evidence Hamiltonian {j}', evidence, d, j + rep, lambda: Underdamped(stepsize=0.5, leapfrog_steps=2), schedule, particles, moves, resample,
                runs, s + 130 + j)
    return out
