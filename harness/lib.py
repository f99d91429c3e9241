"""Scenarios and samplers shared by the drivers, built from the public interface only."""
import numpy as np
import jax
import jax.numpy as jnp
from jax import random

import mocat
from mocat import cdict, run, Scenario, Sampler
from mocat import abc as mabc
from mocat import ssm as mssm
from mocat.scenarios import Gaussian, GaussianMixture, DoubleWell, Rastrigin

key = random.PRNGKey


def spd(d, seed, scale=1.):
    """A fixed, clearly correlated covariance matrix."""
    rng = np.random.RandomState(seed)
    a = rng.normal(size=(d, d))
    return jnp.array(scale * (a @ a.T / d + 0.4 * np.eye(d)), dtype='float32')


class PriorGaussian(Gaussian):
    """Gaussian likelihood with an independent Gaussian prior that can be sampled."""
    prior_sd: float = 1.5

    def prior_potential(self, x, random_key=None):
        return 0.5 * jnp.sum(jnp.square(x / self.prior_sd), axis=-1)

    def prior_sample(self, random_key):
        return self.prior_sd * random.normal(random_key, (self.dim,))


def prior_gaussian(d=2, seed=0, mean=None, scale=1.):
    return PriorGaussian(mean=jnp.arange(d) * 0.5 + 0.25 if mean is None else mean, covariance=spd(d, seed, scale))


class LinearABC(mabc.ABCScenario):
    """y = A x + noise with a Gaussian prior: simulator only."""
    name = 'linear abc'

    def __init__(self, dim=2, ydim=3, sd=0.5, seed=0):
        rng = np.random.RandomState(seed)
        self.dim = dim
        self.a = jnp.array(rng.normal(size=(ydim, dim)), dtype='float32')
        self.sd = sd
        self.data = jnp.array(self.a @ jnp.ones(dim) * 0.5)
        super().__init__()

    def prior_potential(self, x, random_key=None):
        return 0.5 * jnp.sum(jnp.square(x - 0.1)) / 1.3 ** 2

    def prior_sample(self, random_key):
        return 0.1 + 1.3 * random.normal(random_key, (self.dim,))

    def likelihood_sample(self, x, random_key):
        return self.a @ x + self.sd * random.normal(random_key, (self.a.shape[0],))
