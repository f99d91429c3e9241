"""Simulator-based scenarios whose draws can be checked exactly."""
import numpy as np
import jax
import jax.numpy as jnp

from kit import fl, vec, ints
from lib import *
from mocat.abc import ImportanceABC, VanillaABC, RandomWalkABC


class LatticeABC(mabc.ABCScenario):
    """Piecewise constant prior over three cells, data 1..3 from a table, distances from a table."""
    name = 'lattice abc'
    dim = 1

    def __init__(self, cfg):
        self.cfg = cfg
        self.prior = jnp.array(cfg['prior'], dtype='float32')
        self.sim = jnp.array(cfg['sim'], dtype='float32')
        self.dist = jnp.array(cfg['dist'], dtype='float32')
        self.data = jnp.zeros(1)
        super().__init__()

    def cell(self, x):
        return jnp.clip(jnp.round(x[0]).astype(int) - 1, 0, 2)

    def prior_potential(self, x, random_key=None):
        r = jnp.round(x[0])
        return jnp.where((r >= 1) & (r <= 3), -jnp.log(self.prior[self.cell(x)]), jnp.inf)

    def prior_sample(self, random_key):
        a, b = random.split(random_key)
        return random.categorical(a, jnp.log(self.prior), shape=(1,)) + 1. + 0.9 * (random.uniform(b, (1,)) - 0.5)

    def likelihood_sample(self, x, random_key):
        return random.categorical(random_key, jnp.log(self.sim[self.cell(x)]), shape=(1,)) + 1.

    def distance_function(self, y):
        return self.dist[jnp.round(y[0]).astype(int) - 1]


class Bounded(LinearABC):
    """Uniform prior on a box; sometimes the simulator fails."""
    failing = 0.

    def prior_potential(self, x, random_key=None):
        return jnp.where(jnp.all(jnp.abs(x) <= 1.), 0., jnp.inf)

    def prior_sample(self, random_key):
        return random.uniform(random_key, (self.dim,), minval=-1., maxval=1.)

    def likelihood_sample(self, x, random_key):
        a, b = random.split(random_key)
        y = super().likelihood_sample(x, a)
        return jnp.where(random.uniform(b) < self.failing, jnp.nan, y)


class MaxABC(LinearABC):
    """A different distance."""
    def distance_function(self, y):
        return jnp.max(jnp.abs(y - self.data))


class MatrixABC(LinearABC):
    """Data arranged in a matrix."""
    def __init__(self, *args):
        super().__init__(*args)
        self.data = self.data.reshape(2, -1)

    def likelihood_sample(self, x, random_key):
        return super().likelihood_sample(x, random_key).reshape(2, -1)


class NormalProposal(ImportanceABC):
    mean, sd = 0.4, 0.8

    def __init__(self, threshold=jnp.inf):
        super().__init__()
        self.parameters.threshold = threshold

    def importance_proposal(self, abc_scenario, random_key):
        return self.mean + self.sd * random.normal(random_key, (abc_scenario.dim,))

    def importance_potential(self, abc_scenario, x):
        return 0.5 * jnp.sum(jnp.square((x - self.mean) / self.sd)) + x.size * jnp.log(self.sd)


class BoxProposal(NormalProposal):
    def importance_proposal(self, abc_scenario, random_key):
        return random.uniform(random_key, (abc_scenario.dim,), minval=0.5, maxval=1.5)

    def importance_potential(self, abc_scenario, x):
        return jnp.where(jnp.all((x >= 0.5) & (x <= 1.5)), 0., jnp.inf)


def model_of(scenario, proposal='prior', distance='euclid'):
    if isinstance(scenario, LatticeABC):
        return dict(kind='lattice', prior=scenario.cfg['prior'], sim=scenario.cfg['sim'], dist=scenario.cfg['dist'], deterministic=False, proposal=proposal,
                    distance='table')
    return dict(kind='bounded' if isinstance(scenario, Bounded) else 'linear', a=vec(scenario.a), data=vec(np.ravel(scenario.data)),
                deterministic=scenario.sd == 0. and not getattr(scenario, 'failing', 0), proposal=proposal, distance=distance)


def row(s):
    return dict(x=vec(np.ravel(s['value'])), prior=fl(s['prior_potential']), y=vec(np.ravel(s['simulated_data'])), distance=fl(s['distance']))
