"""Scenarios: potentials, gradients and temperature through histories of modifications."""
import json
import random as pyrandom

import numpy as np
import jax
import jax.numpy as jnp

from kit import fl, vec, ints
from lib import *
from mocat import twodim

POLY = {0: (0.5, 0.1, 0.), 1: (0.2, -0.4, 0.05), 2: (1.1, 0.3, 0.02)}


def poly(a, x):
    return jnp.sum(a[0] * x ** 2 + a[1] * x + a[2] * x ** 4, axis=-1)


class Poly(Scenario):
    name = 'poly'

    def __init__(self, dim, with_prior=True):
        self.dim = dim
        if not with_prior:
            self.prior_potential = lambda x, random_key=None: jnp.array(0.)
        super().__init__()

    def prior_potential(self, x, random_key=None):
        return poly(POLY[0], x)

    def likelihood_potential(self, x, random_key=None):
        return poly(POLY[0], x)


class PotentialOnly(Scenario):
    """Only the potential itself is defined."""
    name = 'potential only'

    def __init__(self, dim):
        self.dim = dim
        super().__init__()

    def potential(self, x, random_key=None):
        return poly(POLY[1], x)


class NoisyBoth(Scenario):
    name = 'noisy'
    dim = 2

    def prior_potential(self, x, random_key=None):
        return poly(POLY[0], x) * random.uniform(random_key, ())

    def likelihood_potential(self, x, random_key=None):
        return poly(POLY[1], x) * (1 + random.uniform(random_key, ()))


def prior_of(k):
    return lambda x, random_key=None: poly(POLY[k], x)


def make(kind, dim):
    c = dict(kind=kind, t=fl(1.), prior=[], lik=[])
    if kind == 'poly':
        s = Poly(dim)
        c.update(prior=vec(POLY[0]), lik=vec(POLY[0]))
    elif kind == 'potential only':
        s = PotentialOnly(dim)
        c.update(kind='poly', lik=vec(POLY[1]))
    elif kind == 'gaussian':
        s = Gaussian(mean=jnp.arange(dim) * 1., covariance=spd(dim, 1))
        c.update(mean=vec(s.mean), cov=vec(s.covariance))
    elif kind == 'default gaussian':
        s = Gaussian(dim)
        c.update(kind='gaussian', mean=vec(np.zeros(dim)), cov=vec(np.eye(dim)))
    elif kind == 'twodim gaussian':
        s = twodim.Gaussian(covariance=spd(2, 8))
        c.update(kind='gaussian', mean=vec(np.zeros(2)), cov=vec(s.covariance))
    elif kind in ('mixture', 'twodim mixture'):
        if kind == 'mixture':
            means = np.random.RandomState(dim).normal(size=(3, dim)) * 2
            covs = np.array([np.asarray(spd(dim, 10 + k)) for k in range(3)])
            w = np.array([0.2, 0.5, 0.3])
            s = GaussianMixture(jnp.array(means, dtype='float32'), jnp.array(covs), jnp.array(w, dtype='float32'))
        else:
            s = twodim.GaussianMixture()
            means, covs, w = np.array([[-2., -2], [2, -2], [-2, 2], [2, 2]]), np.array([np.eye(2)] * 4), np.ones(4) / 4
        c.update(kind='mixture', means=vec(means), covs=vec(covs), weights=vec(w))
    elif kind == 'doublewell':
        s = DoubleWell(dim)
    elif kind == 'twodim doublewell':
        s = twodim.DoubleWell()
        c['kind'] = 'doublewell'
    elif kind == 'rastrigin':
        s = Rastrigin(dim, a=1.5)
        c['a'] = fl(1.5)
    elif kind == 'twodim rastrigin':
        s = twodim.Rastrigin()
        c.update(kind='rastrigin', a=fl(1.))
    elif kind == 'banana':
        s = twodim.Banana()
        c.update(curviness=fl(0.03), lengthiness=fl(100))
    elif kind == 'funnel':
        s = twodim.NealFunnel()
    return s, c


def modify(s, c, op, v):
    """Apply one operation to the real object; returns what it sets in the configuration, or None if it does not apply."""
    kind = c['kind']
    d = s.dim
    if op == 'temperature':
        s.temperature = (0.5, 2.25)[v - 1]
        return dict(t=fl(s.temperature))
    if op == 'prior':
        if d == 1 and kind == 'poly' or d > 1:
            s.prior_potential = prior_of(v)
            return dict(prior=vec(POLY[v]))
    if op == 'likelihood' and kind == 'poly':
        s.likelihood_potential = prior_of(v)
        return dict(lik=vec(POLY[v]))
    if op == 'centre':
        if kind == 'gaussian':
            s.mean = jnp.array(np.full(d, 1.5 * v - 2), dtype='float32')
            return dict(mean=vec(s.mean))
        if kind == 'mixture':
            if v == 1:
                s.means = s.means * -1. + 0.5
                return dict(means=vec(s.means))
            w = np.arange(1, s.n_components + 1) ** 2.
            s.weights = jnp.array(w / w.sum(), dtype='float32')
            return dict(weights=vec(s.weights))
        if kind == 'banana':
            s.curviness = 0.05 * v
            return dict(curviness=fl(s.curviness))
    if op == 'shape':
        if kind == 'gaussian':
            if v == 1:
                s.covariance = jnp.array(np.arange(1, d + 1) * 0.7, dtype='float32')
                return dict(cov=vec(np.diag(np.asarray(s.covariance))))
            s.covariance = spd(d, 33, 1.7)
            return dict(cov=vec(s.covariance))
        if kind == 'mixture':
            k = s.n_components
            if v == 1:
                s.covariances = spd(d, 34)
                return dict(covs=vec(np.array([np.asarray(spd(d, 34))] * k)))
            s.covariances = jnp.array([spd(d, 40 + i) for i in range(k)])
            return dict(covs=vec(s.covariances))
        if kind == 'rastrigin':
            s.a = 0.5 * v + 0.25
            return dict(a=fl(s.a))
        if kind == 'banana':
            s.lengthiness = 10. * v
            return dict(lengthiness=fl(s.lengthiness))
    return None


def shape1(s, x):
    return jnp.array(x, dtype='float32')


def evaluate(rec, s, c, x, rng, known=True):
    k = key(int(rng.randint(1 << 30)))
    x = shape1(s, x)
    r = jnp.zeros_like(x) + 0.3
    g = lambda f, *a: vec(np.reshape(np.asarray(f(*a)), -1))
    sc = lambda v: fl(np.reshape(np.asarray(v), ()))
    both = dict(pot=sc(s.potential(x, k)), prior=sc(s.prior_potential(x, k)), lik=sc(s.likelihood_potential(x, k)),
                grad=g(s.grad_potential, x, k), gprior=g(s.grad_prior_potential, x, k), glik=g(s.grad_likelihood_potential, x, k))
    if known:
        f = {}
        if c['kind'] == 'mixture':
            f['dens'] = sc(s.dens(x))
        if c['kind'] == 'gaussian':
            full = lambda a: vec(np.diag(np.broadcast_to(np.asarray(a), (s.dim,)))) if np.ndim(a) < 2 else vec(a)
            f.update(covsqrt=full(s.covariance_sqrt), precsqrt=full(s.precision_sqrt), precdet=sc(s.precision_det))
        rec('Eval', x=vec(x), ref=vec(r), likref=sc(s.likelihood_potential(r, k)), priorref=sc(s.prior_potential(r, k)), potref=sc(s.potential(r, k)),
            **both, **f)
    t2 = 1.7
    pg, pr, li, tp = s.potential_and_grad(x, k), s.prior_potential_and_grad(x, k), s.likelihood_potential_and_grad(x, k), s.tempered_potential_and_grad(x, t2, k)
    rec('Relation', t=fl(s.temperature), **both,
        pair=dict(pot=sc(pg[0]), grad=vec(np.ravel(pg[1])), prior=sc(pr[0]), gprior=vec(np.ravel(pr[1])), lik=sc(li[0]), glik=vec(np.ravel(li[1]))),
        at=dict(t=fl(t2), pot=sc(s.tempered_potential(x, t2, k)), grad=g(s.grad_tempered_potential, x, t2, k), pair=dict(pot=sc(tp[0]), grad=vec(np.ravel(tp[1])))),
        jit=sc(jax.jit(lambda y, q: s.potential(y, q))(x, k)))


def history(rec, kind, dim, ops, npoints, seed):
    rng = np.random.RandomState(seed)
    s, c = make(kind, dim)
    rec('New', c=c)
    for o in [None] + ops:
        if o is not None:
            upd = modify(s, c, o['op'], o['v'])
            if upd is None:
                continue
            rec('Op', op=o['op'], set=upd)
        for _ in range(npoints):
            evaluate(rec, s, c, rng.normal(size=s.dim) * 1.2, rng)


def noisy(rec, seed):
    rng = np.random.RandomState(seed)
    s = NoisyBoth()
    for t in (1., 0.3):
        s.temperature = t
        for _ in range(5):
            evaluate(rec, s, None, rng.normal(size=2), rng, known=False)


def vectorised(rec, kind, dim, seed):
    rng = np.random.RandomState(seed)
    s, c = make(kind, dim)
    for t in (1., 0.4):
        s.temperature = t
        xs = jnp.array(rng.normal(size=(7, s.dim)) * 1.5, dtype='float32')
        single = [fl(np.reshape(np.asarray(s.potential(x, None)), ())) for x in xs]
        rec('Vector', how='mapped evaluation agrees with single evaluation', single=single, batch=vec(np.ravel(jax.vmap(lambda x: s.potential(x, None))(xs))))
        if kind not in ('banana', 'funnel'):
            rec('Vector', how='vectorised evaluation agrees with single evaluation', single=single,
                batch=vec(np.ravel(s.potential(xs[:, 0] if s.dim == 1 else xs, None))))
        if isinstance(s, twodim.TwoDimToyScenario if hasattr(twodim, 'TwoDimToyScenario') else ()) or 'twodim' in kind or kind in ('banana', 'funnel'):
            xl, yl = jnp.linspace(-2, 1.5, 4), jnp.linspace(-1, 3, 3)
            z = s.vec_potential(xl, yl)
            rec('Vector', how='grid evaluation agrees with single evaluation', batch=vec(np.ravel(z)),
                single=[fl(s.potential(jnp.array([x, y]), None)) for y in yl for x in xl])


KINDS = [('poly', 1), ('poly', 3), ('potential only', 2), ('gaussian', 1), ('gaussian', 3), ('default gaussian', 2), ('twodim gaussian', 2), ('mixture', 2),
         ('mixture', 1), ('twodim mixture', 2), ('doublewell', 2), ('rastrigin', 2), ('banana', 2), ('funnel', 2), ('twodim rastrigin', 2), ('twodim doublewell', 2),
         ('rastrigin', 1), ('doublewell', 1)]


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    hist = json.load(open(casefile))
    out = []
    for j, (kind, dim) in enumerate(KINDS):
        hs = rng.sample(hist, 120 if big else (8 if j < 10 else 3))
        for i, h in enumerate(hs):
            out.append((f'{kind} d={dim} ' + ', '.join(f'{o["op"]}={o["v"]}' for o in h), history, kind, dim, h, 2, seed * 1000 + i))
        out.append((f'{kind} d={dim} vectorised', vectorised, kind, dim, seed))
    out.append(('random potentials', noisy, seed))
    rng.shuffle(out)
    return out
