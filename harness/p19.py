"""Diagnostics of chains and weights."""
import json
import random as pyrandom
import warnings

from kit import fl, vec, ints
from lib import *

F32 = np.float32
warnings.simplefilter('ignore')


def f32(x):
    return np.asarray(x, dtype=F32)


def chain(rec, x, most, lags, tol='5e-4', form='array'):
    x = f32(x)
    sample = jnp.array(x) if form == 'array' else cdict(potential=jnp.array(x), value=jnp.zeros((len(x), 2)))
    kw = {} if most is None else dict(max_lag_eval=most)
    count = min(len(x), 1000 if most is None else most)
    lags = [k for k in lags if k < count - 1]
    rec('Chain', x=vec(x), most=1000 if most is None else most, lags=lags, tol=tol, acf=vec(mocat.autocorrelation(sample, **kw)),
        iats=[fl(mocat.integrated_autocorrelation_time(sample, max_lag_iat=k, **kw)) for k in lags],
        esss=[fl(mocat.ess_autocorrelation(sample, max_lag_iat=k, **kw)) for k in lags],
        iat=fl(mocat.integrated_autocorrelation_time(sample, **kw)) if count > 1 else '0', ess=fl(mocat.ess_autocorrelation(sample, **kw)) if count > 1 else '0')


def weights(rec, lw, form='array'):
    lw = f32(lw)
    arg = jnp.array(lw) if form == 'array' else cdict(log_weight=jnp.array(lw), value=jnp.zeros(len(lw)))
    rec('Weights', lw=vec(lw), ess=fl(mocat.ess_log_weight(arg)), log=fl(mocat.log_ess_log_weight(arg)))


def small(rec, todo):
    for c in todo:
        if len(set(c['x'])) > 1:
            for most in (None, 3):
                chain(rec, np.array(c['x']) * 1.5 - 1, most, (0, 1, 2, 3))
            chain(rec, c['x'], None, (), form='cdict')
        if sum(c['w']):
            with np.errstate(divide='ignore'):
                lw = np.log(np.array(c['w'], dtype=float))
            weights(rec, lw)
            weights(rec, lw + 60, 'cdict')
            weights(rec, lw * 40 - 300)


def correlated(n, rho, seed, offset=0., scale=1.):
    rng = np.random.RandomState(seed)
    z = rng.normal(size=n)
    x = np.zeros(n)
    for i in range(n):
        x[i] = (rho * x[i - 1] if i else 0.) + z[i] * np.sqrt(1 - rho ** 2)
    return offset + scale * x


def long(rec, n, rho, offset, scale, most, form, seed):
    chain(rec, correlated(n, rho, seed, offset, scale), most, (0, 1, 4, 9, n // 2), form=form)


def walk(rec, n, most, seed):
    """Not stationary."""
    chain(rec, np.cumsum(np.random.RandomState(seed).normal(size=n)) + np.linspace(0, 10, n), most, (0, 2, 7), tol='1e-3')


def weight_sets(rec, n, seed):
    rng = np.random.RandomState(seed)
    z = rng.normal(size=n)
    for shift in (0., 1e3, -1e3, 3e4, -3e4):
        for scale in (0., 0.3, 5., 200.):
            weights(rec, shift + scale * z, 'cdict' if scale == 5. else 'array')
    dead = z.copy()
    dead[rng.permutation(n)[:max(0, n - 1 - n // 3)]] = -np.inf
    weights(rec, dead)
    weights(rec, dead + 700.)
    weights(rec, np.where(np.arange(n) == n // 2, 0., -np.inf))


def jumps(rec, n, d, seed):
    rng = np.random.RandomState(seed)
    x = f32(np.cumsum(rng.normal(size=(n, d)) * np.arange(1, d + 1), axis=0) + 3.)
    rec('Jumps', xs=vec(x), dim=d, out=vec(mocat.squared_jumping_distance(jnp.array(x))))
    rec('Jumps', xs=vec(x), dim=d, out=vec(mocat.squared_jumping_distance(cdict(value=jnp.array(x), potential=jnp.zeros(n)))))
    one = np.ravel(np.asarray(mocat.squared_jumping_distance(jnp.array(x[:, 0]))))
    rec('Jumps', xs=vec(x[:, :1]), dim=1, out=vec(one))


def kinds(rec, seed):
    x = f32(correlated(60, 0.5, seed))
    c = cdict(potential=jnp.array(x), value=jnp.array(x[:, None]))
    for f in (mocat.autocorrelation, mocat.integrated_autocorrelation_time, mocat.ess_autocorrelation):
        rec('Kind', same=bool(np.allclose(np.asarray(f(jnp.array(x))), np.asarray(f(c)), rtol=1e-5, atol=1e-6)))
        for bad in (jnp.array(x[:, None]), cdict(potential=jnp.array(x[:, None]))):
            try:
                f(bad)
                rec('Refuse', refused=False)
            except TypeError:
                rec('Refuse', refused=True)


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    cs = json.load(open(casefile))
    rng.shuffle(cs)
    cs = cs[:2400 if big else 160]
    out = [(f'small chains {c}', small, cs[c:c + 20]) for c in range(0, len(cs), 20)]
    for rep in range(8 if big else 1):
        s = seed * 17 + rep
        for n in (2, 3, 7, 16, 17, 31, 64, 100, 257, 400):
            for rho, offset, scale in ((0., 0., 1.), (0.8, 50., 1.), (-0.6, -3., 1e-3), (0.95, 0., 1e4)):
                most = rng.choice((None, 2, n // 2 + 1, n, n + 5, 37))
                form = rng.choice(('array', 'cdict'))
                out.append((f'chain of {n} rho {rho} offset {offset} scale {scale} lags {most} {form} #{rep}', long, n, rho, offset, scale, most, form, s))
            out.append((f'weights {n} #{rep}', weight_sets, n, s))
        for n, most in ((40, None), (150, 60), (300, 20)):
            out.append((f'walk {n} {most} #{rep}', walk, n, most, s))
        for n, d in ((2, 1), (3, 2), (10, 4), (50, 3)):
            out.append((f'jumps {n} {d} #{rep}', jumps, n, d, s))
        out.append((f'kinds #{rep}', kinds, s))
    for n in (1200, 1500):
        out.append((f'long chain {n}', long, n, 0.9, 1., 2., None, 'array', seed))
    return out
