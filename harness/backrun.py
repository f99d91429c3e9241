"""Small weighted particle sets and counts of what is drawn from them."""
from ssmrun import *


def particle_set(ssm, par, ts, n, seed, zeros=False, spread=1., repeat=False):
    """Handmade filter particles: values, log weights, observations."""
    rng = np.random.RandomState(seed)
    T = len(ts)
    if par['kind'] == 'lattice':
        k = len(par['p0'])
        x = rng.randint(1, k + 1, size=(T, n, 1)).astype(F32)
        x[:, :min(k, n), 0] = np.arange(1, min(k, n) + 1)       # every state occurs, so that every draw is possible
    else:
        x = (rng.normal(size=(T, n, ssm.dim)) * spread).astype(F32)
        if repeat and n > 3:
            x[:, 2] = x[:, 0]
    lw = (rng.normal(size=(T, n)) * 0.7).astype(F32)
    if zeros and n > 3:
        for t in range(T):
            lw[t, rng.randint(n - (3 if par['kind'] == 'lattice' else 0)) + (3 if par['kind'] == 'lattice' else 0)] = -np.inf
    y = rng.normal(size=(T, ssm.dim_obs)).astype(F32)
    return cdict(value=jnp.array(x), log_weight=jnp.array(lw), t=jnp.array(ts, dtype=F32), y=jnp.array(y), ess=jnp.ones(T))


def classes(x):
    """For each particle, the first index (from 1) with the same value."""
    return [[next(j + 1 for j in range(len(xt)) if np.array_equal(xt[j], xt[i])) for i in range(len(xt))] for xt in np.asarray(x)]


def indices(x, drawn):
    """Index (from 1) at each time of every drawn state, 0 if it is no particle."""
    x, drawn = np.asarray(x), np.asarray(drawn)
    out = np.zeros(drawn.shape[:2], dtype=int)
    for t in range(x.shape[0]):
        for i in range(x.shape[1] - 1, -1, -1):
            out[t][np.all(drawn[t] == x[t, i], axis=-1)] = i + 1
    return out
