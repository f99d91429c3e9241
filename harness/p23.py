"""Quasi-Newton factors from histories, and chains of the sampler built on them."""
import json
import random as pyrandom

from kit import fl, vec, ints
from lib import *
from mcmclog import logged, finish
from mocat import utils, QNUnderdamped, Metropolis, RMMetropolis
try:
    from mocat.src.utils import bfgs_sqrt_log_abs_det
except ImportError:
    bfgs_sqrt_log_abs_det = None

F = np.float32


class Model(Scenario):
    """Isotropic Gaussian prior; Gaussian likelihood or wells at +-1 in every coordinate."""
    name = 'model'

    def __init__(self, kind, dim, seed, temperature=1.):
        rng = np.random.RandomState(seed)
        self.kind, self.dim = kind, dim
        self.mean = jnp.array(rng.normal(size=dim), dtype='float32')
        self.prec = jnp.linalg.inv(spd(dim, seed)).astype('float32')
        self.well, self.priorprec = F(2.), F(0.25)
        super().__init__()
        self.temperature = temperature

    def prior_potential(self, x, random_key=None):
        return 0.5 * self.priorprec * jnp.sum(jnp.square(x))

    def likelihood_potential(self, x, random_key=None):
        if self.kind == 'gauss':
            return 0.5 * (x - self.mean) @ self.prec @ (x - self.mean)
        return 0.25 * self.well * jnp.sum(jnp.square(jnp.square(x) - 1.))

    def describe(self):
        return dict(kind=self.kind, mean=vec(self.mean), prec=vec(self.prec), well=fl(self.well), priorprec=fl(self.priorprec), temperature=fl(F(self.temperature)))


def factors(rec, vals, grads, d0, r, used, seed, scalar=False, how='given'):
    """d0: vector of the initial diagonal (passed as a number if scalar)."""
    dim = vals.shape[-1]
    diag = float(d0[0]) if scalar else jnp.array(d0)
    args = [jnp.array(vals), jnp.array(grads)]
    if how == 'defaults':
        ps, qs, us, ts = utils.bfgs_sqrt_pqut(*args)
    elif how == 'keywords':
        ps, qs, us, ts = utils.bfgs_sqrt_pqut(*args, init_hessian_sqrt_diag=diag, r=r, update_bools=jnp.array(used))
    else:
        ps, qs, us, ts = utils.bfgs_sqrt_pqut(*args, diag, r, jnp.array(used))
    zs = np.concatenate([np.eye(dim), np.random.RandomState(seed).normal(size=(2, dim))]).astype(F)
    if how == 'defaults':
        inv, dia = (), ()
    else:
        inv, dia = (1 / diag,), (diag,)
    prod, tprod, det = utils.bfgs_sqrt_prod, utils.bfgs_sqrt_transpose_prod, utils.bfgs_sqrt_det
    logs = dict(slog='none', clog='none')
    if bfgs_sqrt_log_abs_det is not None:
        logs = dict(slog=fl(bfgs_sqrt_log_abs_det(ps, qs, *inv)), clog=fl(bfgs_sqrt_log_abs_det(us, ts, *dia)))
    rec('History', vals=vec(vals), grads=vec(grads), d=vec(np.asarray(d0, dtype=F)), r=fl(F(r)), used=[bool(u) for u in used], ps=vec(ps), qs=vec(qs), us=vec(us), ts=vec(ts), zs=vec(zs),
        sz=[vec(prod(ps, qs, z, *inv)) for z in zs], cz=[vec(prod(us, ts, z, *dia)) for z in zs], stz=[vec(tprod(ps, qs, z, *inv)) for z in zs],
        ctz=[vec(tprod(us, ts, z, *dia)) for z in zs], sdet=fl(det(ps, qs, *inv)), cdet=fl(det(us, ts, *dia)), **logs)


GRID = np.array([[0, 0.25], [1, -0.5], [-0.75, 0.5], [0.25, 1.5]], dtype=F)
R = {'-Infinity': -np.inf}


def enumerated(rec, group, seed):
    for i, c in enumerate(group):
        rng = np.random.RandomState(seed)
        vals = GRID[np.array(c['pts']) - 1]
        if c['f'] == 'gauss':
            grads = ((vals - F([0.5, 0])) @ F([[2, 0.5], [0.5, 0.75]]) + F(0.1) * vals).astype(F)
        else:
            grads = (2 * vals * (vals ** 2 - 1) + F(0.1) * vals).astype(F)
        r = R.get(c['r'], None)
        r = float(c['r']) if r is None else r
        k = (seed + i) % 3
        factors(rec, vals, grads, F([1., 2.]) if k == 0 else F([1.7, 1.7]) if k == 1 else F([1., 1.]), r, c['used'], seed, scalar=k == 1, how='keywords' if i % 2 else 'given')


def random_history(rec, kind, d, m, r, start, how, seed):
    rng = np.random.RandomState(seed)
    vals = (rng.normal(size=(m, d)) * 0.8).astype(F)
    for i in range(1, m):     # rejected moves repeat the state
        if rng.rand() < 0.25:
            vals[i] = vals[i - 1]
    if kind == 'gauss':
        prec = np.linalg.inv(np.asarray(spd(d, seed), dtype=float)) + 0.2 * np.eye(d)
        grads = (vals @ prec).astype(F)
    else:
        grads = (2 * vals * (vals ** 2 - 1) + 0.25 * vals).astype(F)
    used = [i >= start for i in range(m - 1)]
    if start:
        vals[:start], grads[:start] = 0, 0
    if how == 'defaults':
        factors(rec, vals, grads, np.ones(d), -np.inf, [True] * (m - 1), seed, how='defaults')
    else:
        scalar = seed % 2 == 0
        d0 = np.full(d, 0.6) if scalar else rng.uniform(0.5, 2., size=d)
        factors(rec, vals, grads, d0.astype(F), r, used, seed, scalar=scalar)


def chain(rec, kind, d, args, n, temperature, correction, how, seed, judged):
    scenario = Model(kind, d, seed, temperature)
    cls = logged(QNUnderdamped)
    full = dict(leapfrog_steps=1, friction=1., m=30, init_hessian_sqrt_diag=1., pos_def_r=0.5, max_val=1e10, sort_bfgs=False)
    full.update(args)
    kw = {} if correction is None else dict(correction=correction)
    if how == 'built':
        s = cls(**args)
    elif how == 'kwargs':
        s = cls(stepsize=3.)
        kw.update(args)
    else:
        s = cls(**{k: v for k, v in args.items() if k in ('m', 'sort_bfgs')})
        run(Model('well', d, seed + 1), s, 12, key(seed + 9), stepsize=0.1)
        for k, v in args.items():
            if k not in ('m', 'sort_bfgs'):
                setattr(s.parameters, k, v)
    start = None if how == 'kwargs' else cdict(value=jnp.array(np.random.RandomState(seed).normal(size=d).astype(F)))
    c = run(scenario, s, n, key(seed), initial_state=start, **kw)
    finish()
    adaptive = hasattr(c, 'stepsize')
    ds = np.full(d, full['init_hessian_sqrt_diag']) if np.ndim(full['init_hessian_sqrt_diag']) == 0 else np.asarray(full['init_hessian_sqrt_diag'])
    cfg = dict(m=full['m'], d=vec(ds.astype(F)), r=fl(F(full['pos_def_r'])), sort=full['sort_bfgs'], steps=full['leapfrog_steps'], friction=fl(full['friction']), maxval=fl(full['max_val']))
    rec('Chain', cfg=cfg, model=scenario.describe(), x0=vec(c.value[0]))
    mem = c.memory
    for i in range(n - 1):
        rej, prop, alpha, *_ = s.log[i]
        T = F(temperature)
        rec('Iter', h=fl(c.stepsize[i] if adaptive else F(full['stepsize'])), rejx=vec(rej['value']), rejp=vec(rej['momenta']), propx=vec(prop['value']), propp=vec(prop['momenta']),
            prevx=vec(c.value[i]), prevp=vec(c.momenta[i]), nextx=vec(c.value[i + 1]), nextp=vec(c.momenta[i + 1]), alpha=fl(alpha),
            values=vec(mem.value[i + 1]), grads=vec(mem.grad_prior_potential[i + 1] + T * mem.grad_likelihood_potential[i + 1]),
            ps=vec(mem.ps[i + 1]), qs=vec(mem.qs[i + 1]), us=vec(mem.us[i + 1]), ts=vec(mem.ts[i + 1]))
    rec('End')


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    hs = json.load(open(casefile))
    rng.shuffle(hs)
    hs = hs if big else hs[:240]
    out = [(f'histories {c}', enumerated, hs[c:c + 24], seed + c) for c in range(0, len(hs), 24)]
    for rep in range(40 if big else 8):
        for i, (kind, d, m, r, start, how) in enumerate((('gauss', 2, 4, -np.inf, 0, 'given'), ('gauss', 3, 7, 0.3, 2, 'given'), ('well', 2, 6, 0.5, 0, 'given'), ('well', 4, 9, 0.5, 3, 'given'),
                                                         ('gauss', 1, 3, -np.inf, 0, 'defaults'), ('gauss', 4, 5, -np.inf, 0, 'defaults'), ('well', 1, 5, 0.2, 1, 'given'), ('gauss', 3, 2, 0.1, 0, 'given'))):
            out.append((f'history {kind} {d} {m} {r} {start} {how} #{rep}', random_history, kind, d, m, r, start, how, seed * 100 + rep))
    for rep in range(5 if big else 1):
        s = seed * 50 + rep
        n = 600 if big else 260
        out += [(f'chain plain #{rep}', chain, 'gauss', 2, dict(stepsize=0.5, leapfrog_steps=3, m=6, friction=0.4), 2 * n, 1., None, 'built', s, True),
                (f'chain defaults #{rep}', chain, 'gauss', 3, dict(stepsize=0.6), 80, 1., None, 'built', s + 1, True),
                (f'chain wells #{rep}', chain, 'well', 2, dict(stepsize=0.25, leapfrog_steps=2, m=5, friction=0.5, pos_def_r=0.3), n, 1., None, 'kwargs', s + 2, True),
                (f'chain tempered #{rep}', chain, 'well', 3, dict(stepsize=0.3, m=4, friction=3., init_hessian_sqrt_diag=jnp.array([1., 2., 0.5])), n, 0.4, None, 'used', s + 3, True),
                (f'chain scalar diagonal #{rep}', chain, 'gauss', 2, dict(stepsize=0.7, m=2, init_hessian_sqrt_diag=1.5, leapfrog_steps=2), n, 0.5, None, 'kwargs', s + 4, True),
                (f'chain sorted #{rep}', chain, 'gauss', 2, dict(stepsize=0.4, m=5, sort_bfgs=True), n, 1., None, 'built', s + 5, True),
                (f'chain adaptive #{rep}', chain, 'gauss', 2, dict(stepsize=0.9, m=5, leapfrog_steps=2), 120, 1., RMMetropolis(), 'built', s + 6, True),
                (f'chain no friction #{rep}', chain, 'gauss', 2, dict(stepsize=0.8, m=4, friction=0., leapfrog_steps=2), 100, 1., None, 'built', s + 7, True),
                (f'chain full refreshment #{rep}', chain, 'well', 1, dict(stepsize=0.5, m=3, friction=np.inf), n, 1., None, 'built', s + 8, True),
                (f'chain limited values #{rep}', chain, 'gauss', 2, dict(stepsize=0.8, m=4, max_val=1.2), 100, 1., None, 'built', s + 9, True)]
    return out
