"""Kalman filter and smoother."""
import json

from ssmrun import *
from mocat.ssm import run_kalman_filter_for_marginals, run_kalman_smoother_for_marginals, run_kalman_smoother_for_marginals_and_lag_ones

SMALL = {1: dict(kind='linear', mean=[.5], cov=[[2.]], f=[[.9]], q=[[.5]], h=[[1.5]], r=[[.25]]),
         2: dict(kind='linear', mean=[.5, -1.], cov=[[2., .5], [.5, 1.]], f=[[.9, .3], [-.2, .6]], q=[[.5, .2], [.2, .7]], h=[[1., -.5]], r=[[.25]]),
         3: dict(kind='drifting', mean=[.5, -1.], cov=[[2., .5], [.5, 1.]], f=[[.9, .3], [-.2, .6]], q=[[.5, .2], [.2, .7]], h=[[1., -.5], [.3, .8], [0., 1.]], r=[[.5, .1, 0.], [.1, .4, -.1], [0., -.1, .3]])}
JITTED = {}


def build(p):
    p = {k: v if k == 'kind' else np.array(v, dtype=F32) for k, v in p.items()}
    j = {k: jnp.array(v) for k, v in p.items() if k != 'kind'}
    q = {k: v for k, v in p.items() if k != 'kind'}
    if p['kind'] == 'drifting':
        return Drifting(**j), record('drifting', q)
    return TimeHomogenousLinearGaussian(initial_mean=j['mean'], initial_covariance=j['cov'], transition_matrix=j['f'], transition_covariance=j['q'],
                                        likelihood_matrix=j['h'], likelihood_covariance=j['r'], dim=len(p['mean'])), record('linear', q)


def judge(rec, m, ts, ys, f, s, tol, how):
    rec('Filter', m=m, ts=vec(ts), ys=vec(ys), mus=vec(f[0]), covs=vec(f[1]), tol=fl(tol), how=how)
    rec('Smoother', m=m, ts=vec(ts), ys=vec(ys), mus=vec(s[0]), covs=vec(s[1]), lagged=len(s) > 2, lags=vec(s[2]) if len(s) > 2 else [], fmu=vec(f[0][-1]), fcov=vec(f[1][-1]), tol=fl(tol), how=how)


def enumerated(rec, which, gaps, sequences):
    ssm, m = build(SMALL[which])
    both = jax.jit(lambda y, t: (run_kalman_filter_for_marginals(ssm, y, t), run_kalman_smoother_for_marginals_and_lag_ones(ssm, y, t)))
    for ys in sequences:
        y = jnp.array(ys, dtype=F32)
        ts = jnp.array(GAPS['unit' if gaps == 1 else 'uneven'][:len(ys)], dtype=F32)
        f, s = both(y, ts)
        judge(rec, m, ts, y, f, s, 1e-3, 'enumerated')


def generic(rec, kind, d, dy, seed, gaps, T, variant, scale=1., tol=2e-3):
    """variant 0: everything from data; 1: filter output passed on; 2: marginals only; 3: parameters replaced after construction"""
    p = parameters(d, dy, seed, scale)
    if variant == 3 and kind == 'linear':
        ssm, _ = build(dict(parameters(d, dy, seed + 900), kind=kind))
        m = record('linear', p)
        run_kalman_filter_for_marginals(ssm, jnp.ones((2, dy)), jnp.arange(2.))
        for a, k in (('initial_mean', 'mean'), ('initial_covariance', 'cov'), ('transition_matrix', 'f'), ('transition_covariance', 'q'), ('likelihood_matrix', 'h'), ('likelihood_covariance', 'r')):
            setattr(ssm, a, jnp.array(p[k], dtype=F32))
    else:
        ssm, m = build(dict(p, kind=kind))
    rng = np.random.RandomState(seed)
    ts = jnp.array(np.concatenate([[0.3], 0.3 + np.cumsum(rng.uniform(0.2, 2.5, size=T - 1))]) if gaps == 'random' else GAPS[gaps][:T], dtype=F32)
    ys = jnp.array(rng.normal(size=(T, dy)) * 3, dtype=F32)
    f = run_kalman_filter_for_marginals(ssm, ys, ts)
    if variant == 1:
        s = run_kalman_smoother_for_marginals_and_lag_ones(ssm, ys, ts, f)
    elif variant == 2:
        s = run_kalman_smoother_for_marginals(ssm, ys, ts)
    else:
        s = run_kalman_smoother_for_marginals_and_lag_ones(ssm, ys, ts)
    judge(rec, m, ts, ys, f, s, tol, str(variant))


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    groups = {}
    for c in json.load(open(casefile)):
        groups.setdefault((c['model'], c['gaps'], c['ys'][0][0] if big else 0), []).append([[float(v) for v in y] for y in c['ys']])
    out = [(f'small model {k[0]} gaps {k[1]} first {k[2]}', enumerated, k[0], k[1], v) for k, v in sorted(groups.items())]
    j = 0
    for rep in range(6 if big else 1):
        s = seed * 71 + rep * 23
        for kind in ('linear', 'drifting'):
            for d, dy in ((1, 1), (2, 1), (1, 2), (2, 3), (3, 2), (4, 4), (4, 1)):
                for gaps, T in (('unit', 6), ('uneven', 5), ('random', 12 if not big else 20), ('half', 2), ('unit', 1)):
                    j += 1
                    if not big and (j + seed) % 2 and T > 2:
                        continue
                    out.append((f'{kind} {d}x{dy} {gaps} T={T} variant {j % 4} #{rep}', generic, kind, d, dy, s + j, gaps, T, j % 4, (1., 0.1, 5.)[j % 3]))
    return out
