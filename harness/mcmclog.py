"""Record every transition of a chain through the sampler's public extension points."""
import numpy as np
import jax
import jax.numpy as jnp

from mocat import cdict

HIDE = ('alpha', 'tag', 'tag_seen')


def arrays(state):
    return {k: v for k, v in state.__dict__.items() if isinstance(v, (jnp.ndarray, float, int)) and not isinstance(v, bool)}


def logged(cls):
    """A subclass of cls that records, per transition, the state before the proposal, the proposal and the acceptance probability."""

    class Logged(cls):
        def startup(self, scenario, n, initial_state, initial_extra, **kwargs):
            self.log = []
            initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
            initial_state.tag = jnp.array(0)
            initial_extra.tag = jnp.array(0)
            return initial_state, initial_extra

        def always(self, scenario, reject_state, reject_extra):
            self.tag_in_force = reject_extra.tag
            return super().always(scenario, reject_state, reject_extra)

        def proposal(self, scenario, reject_state, reject_extra):
            before = arrays(reject_state)
            proposed_state, proposed_extra = super().proposal(scenario, reject_state, reject_extra)
            proposed_extra = proposed_extra.copy()
            proposed_state.tag = proposed_extra.iter
            proposed_extra.tag = proposed_extra.iter
            return proposed_state, proposed_extra

        def acceptance_probability(self, scenario, reject_state, reject_extra, proposed_state, proposed_extra):
            alpha = super().acceptance_probability(scenario, reject_state, reject_extra, proposed_state, proposed_extra)
            extra = dict(threshold=reject_extra.parameters.threshold) if hasattr(reject_extra.parameters, 'threshold') else {}
            jax.debug.callback(self.append, arrays(reject_state), arrays(proposed_state), alpha, reject_extra.tag, extra, ordered=True)
            return alpha

        def append(self, rej, prop, alpha, etag, extra):
            self.log.append(({k: np.asarray(v) for k, v in rej.items()}, {k: np.asarray(v) for k, v in prop.items()},
                             float(alpha), int(etag), {k: float(v) for k, v in extra.items()}))

    Logged.__name__ = cls.__name__
    return Logged


def finish():
    jax.effects_barrier()
