"""Tempered ensemble runs whose particles carry an identity and count the moves made on them."""
import numpy as np
import jax
import jax.numpy as jnp

from lib import *
from mocat import RandomWalk, Underdamped, MetropolisedSMCSampler, RMMetropolisedSMCSampler


class Cliff(Scenario):
    """The likelihood is zero to the left of a cliff."""
    name = 'cliff'
    dim = 2
    prior_sd = 1.2

    def prior_potential(self, x, random_key=None):
        return 0.5 * jnp.sum(jnp.square(x / self.prior_sd), axis=-1)

    def likelihood_potential(self, x, random_key=None):
        return jnp.where(x[0] > -0.5, 0.5 * jnp.sum(jnp.square(x - 0.7)), jnp.inf)

    def prior_sample(self, random_key):
        return self.prior_sd * random.normal(random_key, (self.dim,))


class Banana(Cliff):
    name = 'banana'

    def likelihood_potential(self, x, random_key=None):
        return 3. * jnp.square(x[1] - jnp.square(x[0]) + 1.) + 0.2 * jnp.square(x[0] - 1.)


class Unnormalised(Banana):
    """The likelihood carries a large constant, as products of many densities do."""
    name = 'unnormalised'
    constant = 400.

    def likelihood_potential(self, x, random_key=None):
        return super().likelihood_potential(x, random_key) + self.constant


class Peaked(Unnormalised):
    name = 'peaked'
    constant = -300.


SCENARIOS = dict(unnormalised=Unnormalised, peaked=Peaked, cliff=Cliff, banana=Banana, gauss2=lambda: prior_gaussian(2, 3), gauss4=lambda: prior_gaussian(4, 5, scale=0.3),
                 far=lambda: prior_gaussian(2, 7, mean=jnp.array([4., -3.]), scale=0.05), steep=lambda: prior_gaussian(3, 9, scale=0.005))


def probe(base=RandomWalk):
    class Probe(base):
        def __init__(self, stepsize=0.4, **kwargs):
            super().__init__(stepsize=stepsize, **kwargs)

        def always(self, scenario, reject_state, reject_extra):
            reject_state, reject_extra = super().always(scenario, reject_state, reject_extra)
            if hasattr(reject_state, 'count'):
                reject_state.count = reject_state.count + 1.
                reject_state.seen_temperature = scenario.temperature * jnp.ones(())
                reject_state.used = reject_extra.parameters.stepsize * jnp.ones(())
            return reject_state, reject_extra

    return Probe


def start(scenario, n, seed):
    values = jax.vmap(scenario.prior_sample)(random.split(key(seed + 1000), n))
    return cdict(value=values, tag=jnp.arange(n) * 1., count=jnp.zeros(n), seen_temperature=jnp.zeros(n), used=jnp.zeros(n))


def build(base=RandomWalk, cls=MetropolisedSMCSampler, stepsize=0.5, as_class=False, leapfrog_steps=None, **settings):
    p = probe(base)
    if as_class:
        inner = p
    else:
        inner = p(stepsize=stepsize, **({} if leapfrog_steps is None else dict(leapfrog_steps=leapfrog_steps)))
    return cls(inner, **settings)
