"""State-space models for the drivers: the real object and the record spec/SSM.tla understands."""
from kit import fl, vec, ints
from lib import *
from mocat.ssm import (StateSpaceModel, ParticleFilter, BootstrapFilter, LinearGaussian, TimeHomogenousLinearGaussian, NonLinearGaussian,
                       OptimalNonLinearGaussianParticleFilter, EnsembleKalmanFilter,
                       initiate_particles, propagate_particle_filter, run_particle_filter_for_marginals)

NonLinear1DBenchmark, StochasticVolatility = mssm.scenarios.NonLinear1DBenchmark, mssm.scenarios.StochasticVolatility

F32 = 'float32'


class Sine(NonLinearGaussian):
    name = 'sine'

    def __init__(self, f, **kwargs):
        self.f = f
        super().__init__(**kwargs)

    def transition_function(self, x_previous, t_previous, t_new):
        return self.f @ x_previous + jnp.sin(x_previous) + 0.3 * (t_new - t_previous) + 0.2 * jnp.cos(t_previous)


class Drifting(LinearGaussian):
    """Linear Gaussian with everything depending on time."""
    name = 'drifting'

    def __init__(self, mean, cov, f, q, h, r):
        self.dim, self.dim_obs = len(mean), len(r)
        self.mean, self.cov, self.f, self.q, self.h, self.r = mean, cov, f, q, h, r
        super().__init__()

    def get_initial_mean(self, t):
        return self.mean * (1 + t)

    def get_initial_covariance_sqrt(self, t):
        return jnp.linalg.cholesky(self.cov) * jnp.sqrt(1 + t)

    def get_initial_precision_sqrt(self, t):
        return jnp.linalg.inv(self.get_initial_covariance_sqrt(t)).T

    def get_initial_precision_det(self, t):
        return 1 / jnp.linalg.det(self.cov * (1 + t))

    def get_transition_matrix(self, t_previous, t_new):
        return jnp.exp(-0.4 * (t_new - t_previous)) * self.f + 0.1 * jnp.cos(t_new) * jnp.eye(self.dim)

    def get_transition_covariance_sqrt(self, t_previous, t_new):
        return jnp.linalg.cholesky(self.q) * jnp.sqrt(t_new - t_previous)

    def get_transition_precision_sqrt(self, t_previous, t_new):
        return jnp.linalg.inv(self.get_transition_covariance_sqrt(t_previous, t_new)).T

    def get_transition_precision_det(self, t_previous, t_new):
        return 1 / jnp.linalg.det(self.q * (t_new - t_previous))

    def get_likelihood_matrix(self, t):
        return self.h * (1 + 0.2 * jnp.sin(t))

    def get_likelihood_covariance_sqrt(self, t):
        return jnp.linalg.cholesky(self.r) * jnp.sqrt(1 + 0.1 * t)

    def get_likelihood_precision_sqrt(self, t):
        return jnp.linalg.inv(self.get_likelihood_covariance_sqrt(t)).T

    def get_likelihood_precision_det(self, t):
        return 1 / jnp.linalg.det(self.r * (1 + 0.1 * t))


class LatticeSSM(StateSpaceModel):
    """Finite hidden Markov model on 1..k with observations 1..o."""
    name = 'lattice'
    dim = 1
    dim_obs = 1

    def __init__(self, p0, p, g):
        self.p0, self.p, self.g = (jnp.array(a, dtype=F32) for a in (p0, p, g))
        super().__init__()

    @staticmethod
    def at(x):
        return jnp.round(jnp.ravel(x)[0]).astype(int) - 1

    def initial_potential(self, x, t):
        return -jnp.log(self.p0[self.at(x)])

    def initial_sample(self, t, random_key):
        return random.categorical(random_key, jnp.log(self.p0), shape=(1,)) + 1.

    def transition_potential(self, x_previous, t_previous, x_new, t_new):
        return -jnp.log(self.p[self.at(x_previous), self.at(x_new)])

    def transition_sample(self, x_previous, t_previous, t_new, random_key):
        return random.categorical(random_key, jnp.log(self.p[self.at(x_previous)]), shape=(1,)) + 1.

    def likelihood_potential(self, x, y, t):
        return -jnp.log(self.g[self.at(x), self.at(y)])

    def likelihood_sample(self, x, t, random_key):
        return random.categorical(random_key, jnp.log(self.g[self.at(x)]), shape=(1,)) + 1.


class GuidedLattice(ParticleFilter):
    """Proposes uniformly: generic weights."""
    def proposal_sample(self, ssm, x_previous, t_previous, y_new, t_new, random_key):
        return random.randint(random_key, (1,), 1, len(ssm.p0) + 1).astype(F32)

    def proposal_potential(self, ssm, x_previous, t_previous, x_new, y_new, t_new):
        return jnp.log(float(len(ssm.p0)))


class Guided(ParticleFilter):
    """Proposes from the shifted and widened transition: generic weights."""
    def __init__(self, model):
        super().__init__()
        self.m = model

    def _mean_sqrt(self, ssm, x_previous, t_previous, t_new):
        q = jnp.array(self.m['q'], dtype=F32)
        if self.m['kind'] in ('drifting', 'volatility'):
            q = q * (t_new - t_previous)
        if self.m['kind'] == 'benchmark':
            mu = ssm._transition_mean(x_previous, t_previous)
        elif self.m['kind'] == 'volatility':
            mu = ssm.transition_matrix @ x_previous
        else:
            mu = ssm.transition_function(x_previous, t_previous, t_new)
        return mu + 0.2, jnp.linalg.cholesky(1.7 * q)

    def proposal_sample(self, ssm, x_previous, t_previous, y_new, t_new, random_key):
        mu, s = self._mean_sqrt(ssm, x_previous, t_previous, t_new)
        return mu + s @ random.normal(random_key, x_previous.shape)

    def proposal_potential(self, ssm, x_previous, t_previous, x_new, y_new, t_new):
        mu, s = self._mean_sqrt(ssm, x_previous, t_previous, t_new)
        z = jnp.linalg.solve(s, x_new - mu)
        return 0.5 * jnp.sum(z ** 2) + jnp.sum(jnp.log(jnp.diag(s))) + 0.5 * len(z) * jnp.log(2 * jnp.pi)


def parameters(d, dy, seed, scale=1.):
    rng = np.random.RandomState(seed)
    f = rng.normal(size=(d, d))
    f = 0.85 * f / np.abs(np.linalg.eigvals(f)).max()
    return dict(mean=np.round(rng.normal(size=d), 3), cov=np.asarray(spd(d, seed + 1)), f=f.astype(F32), q=scale * np.asarray(spd(d, seed + 2)),
                h=rng.normal(size=(dy, d)).astype(F32), r=scale * np.asarray(spd(dy, seed + 3)))


def record(kind, p):
    return dict(kind=kind, **{k: vec(np.asarray(v, dtype=F32)) for k, v in p.items()})


def linear(d=2, dy=2, seed=0, scale=1.):
    p = parameters(d, dy, seed, scale)
    j = {k: jnp.array(v, dtype=F32) for k, v in p.items()}
    return TimeHomogenousLinearGaussian(initial_mean=j['mean'], initial_covariance=j['cov'], transition_matrix=j['f'], transition_covariance=j['q'],
                                        likelihood_matrix=j['h'], likelihood_covariance=j['r'], dim=d), record('linear', p), dict(p, kind='linear')


def drifting(d=2, dy=2, seed=0, scale=1.):
    p = parameters(d, dy, seed, scale)
    return Drifting(**{k: jnp.array(v, dtype=F32) for k, v in p.items()}), record('drifting', p), dict(p, kind='drifting')


def sharp(d=2, dy=2, seed=0, moving=False):
    """Observations that say more than the transitions: weights across a junction have moments."""
    p = parameters(d, dy, seed)
    p = dict(p, f=(0.6 * p['f']).astype(F32), h=(np.eye(dy, d) + 0.15 * p['h']).astype(F32), r=0.2 * p['r'])
    j = {k: jnp.array(v, dtype=F32) for k, v in p.items()}
    if moving:
        return Drifting(**j), record('drifting', p), dict(p, kind='drifting')
    return TimeHomogenousLinearGaussian(initial_mean=j['mean'], initial_covariance=j['cov'], transition_matrix=j['f'], transition_covariance=j['q'],
                                        likelihood_matrix=j['h'], likelihood_covariance=j['r'], dim=d), record('linear', p), dict(p, kind='linear')


def sine(d=2, dy=2, seed=0, scale=1.):
    p = parameters(d, dy, seed, scale)
    j = {k: jnp.array(v, dtype=F32) for k, v in p.items()}
    return Sine(j['f'], initial_mean=j['mean'], initial_covariance=j['cov'], transition_covariance=j['q'],
                likelihood_matrix=j['h'], likelihood_covariance=j['r']), record('sine', p), dict(p, kind='sine')


def benchmark(*_):
    p = dict(mean=np.zeros(1), cov=np.array([[1.7 ** 2]]), q=np.array([[2.5 ** 2]]), r=np.array([[0.8 ** 2]]))
    return NonLinear1DBenchmark(initial_sd=1.7, transition_sd=2.5, likelihood_sd=0.8), record('benchmark', p), dict(p, kind='benchmark')


def volatility(d=2, dy=2, seed=0):
    p = parameters(d, d, seed)
    r = np.linspace(0.5, 1.7, d)
    j = {k: jnp.array(v, dtype=F32) for k, v in p.items()}
    p = dict(mean=p['mean'], cov=p['cov'], f=p['f'], q=p['q'], r=r)
    return StochasticVolatility(d, initial_mean=j['mean'], initial_covariance=j['cov'], transition_matrix=j['f'], transition_covariance=j['q'],
                                likelihood_covariance_diag=jnp.array(r, dtype=F32)), record('volatility', p), dict(p, kind='volatility')


LATTICES = {
    1: dict(p0=[0.5, 0.5], p=[[0.75, 0.25], [0.25, 0.75]], g=[[0.75, 0.25], [0.1, 0.9]]),
    2: dict(p0=[0.25, 0.75], p=[[0.5, 0.5], [1., 0.]], g=[[1., 0.], [0.25, 0.75]]),
    4: dict(p0=[0.25, 0.75], p=[[0.5, 0.5], [0.9, 0.1]], g=[[0.9, 0.1], [0.25, 0.75]]),
    3: dict(p0=[0.2, 0.3, 0.5], p=[[0.6, 0.4, 0.], [0.1, 0.2, 0.7], [0.5, 0.25, 0.25]], g=[[0.8, 0.1, 0.1], [0.1, 0.8, 0.1], [0.05, 0.15, 0.8]]),
}


def lattice(which=3, *_):
    p = LATTICES[which]
    return LatticeSSM(**p), record('lattice', p), dict(p, kind='lattice')


MODELS = dict(linear=linear, sharp=sharp, drifting=drifting, sine=sine, benchmark=benchmark, volatility=volatility, lattice=lattice)
GAPS = dict(unit=np.array([0., 1., 2., 3., 4., 5., 6., 7.]), uneven=np.array([0.5, 0.8, 2.1, 2.3, 3.9, 4.4, 6.4, 6.5]), half=np.arange(8) * 0.5 + 1.)


def filter_of(kind, par):
    if kind == 'bootstrap':
        return BootstrapFilter()
    if kind == 'optimal':
        return OptimalNonLinearGaussianParticleFilter()
    return GuidedLattice() if par['kind'] == 'lattice' else Guided(par)
