"""Simulators of the shipped simulator-based scenarios, their priors and changes of variable."""
import json
import random as pyrandom

from kit import fl, vec, ints
from lib import *

S = mabc.scenarios
F32 = np.float32


def f32(x):
    return np.asarray(x, dtype=F32)


def keys(seed, n):
    return random.split(key(seed), n)


def changed(obj, how, **values):
    """The same settings given to the constructor or afterwards."""
    if how == 'built':
        return obj(**values)
    o = obj()
    for k, v in values.items():
        setattr(o, k, v)
    return o


# ---- jump processes ---------------------------------------------------------------------------------------------
def sir_paths(rec, start, theta, runs, limit, transformed, how, seed):
    start = jnp.array(start)
    sc = changed(S.TransformedSIR if transformed else S.SIR, how, initial_si=start, max_iter=limit)
    x = jnp.array(f32(theta))
    ts, xs = jax.vmap(lambda k: sc.simulate_times_and_si(jnp.log(x) if transformed else x, k))(keys(seed, runs))
    ts, xs = np.asarray(ts), np.asarray(xs)
    out = []
    for t, s in zip(ts, xs):
        stop = np.flatnonzero(s[:, 1] == 0)
        m = stop[0] + 1 if len(stop) else len(s)
        if int(start[1]) == 0:
            m = 0
        out.append(dict(ts=vec(t[:m]), xs=[[int(a) for a in r] for r in s[:m]]))
    rec('Path', kind='sir', theta=vec(f32(theta)), pop=int(start.sum()), start=[int(a) for a in start], runs=out, limit=limit)


def table(ys):
    t = {}
    for y in ys:
        k = json.dumps(y)
        t[k] = t.get(k, 0) + 1
    return [dict(ys=json.loads(k), c=c) for k, c in t.items()]


def predprey(rec, start, theta, times, n, limit, events, form, seed):
    start = jnp.array(start)
    ts = jnp.array(f32(times))
    th = f32(theta)
    base = dict(kind='predprey', theta=vec(th), pop=1, start=[int(a) for a in start], times=vec(ts), events=events)
    if form == 'function':
        f = jax.jit(jax.vmap(lambda k: S.lotka_volterra_simulate(start, ts, jnp.array(th), k, limit)))
        ys = np.asarray(f(keys(seed, n)))
        rec('Law', prey=False, table=table([[[int(a) for a in s] for s in y] for y in ys]), **base)
    else:
        tr = form.startswith('transformed')
        sc = changed(S.TransformedLotkaVolterra if tr else S.LotkaVolterra, 'built' if form.endswith('built') else 'set', initial_prey_pred=start, times=ts, max_iter=limit)
        x = jnp.array(np.log(np.maximum(th, 1e-30)) if tr else th)
        ys = np.asarray(jax.jit(jax.vmap(lambda k: sc.likelihood_sample(x, k)))(keys(seed, n)))
        rec('Law', prey=True, table=table([[int(a) for a in y] for y in ys]), **base)


# ---- recursion --------------------------------------------------------------------------------------------------
def ricker_paths(rec, start, r, sd, steps, n, seed):
    p = np.asarray(jax.vmap(lambda k: S.ricker_simulate(start, r, sd, steps, k))(keys(seed, n)))
    rec('Ricker', start=fl(start), r=fl(F32(r)), sd=fl(F32(sd)), steps=steps, paths=vec(p))


def ricker_counts(rec, start, r, phi, steps, inds, n, how, seed):
    sc = changed(S.Ricker, how, initial_n=start, num_steps=steps, observation_inds=jnp.array(inds))
    ys = np.asarray(jax.vmap(lambda k: sc.likelihood_sample(jnp.array([r, 0., phi]), k))(keys(seed, n)))
    rec('Counts', start=fl(start), r=fl(F32(r)), phi=fl(F32(phi)), inds=list(inds), ys=vec(ys.T))


def ricker_observed(rec, start, r, sd, steps, n, seed):
    """With a huge observation rate the counts reveal the path."""
    phi = 1e6
    sc = S.Ricker(initial_n=start, num_steps=steps, observation_inds=jnp.arange(steps + 1))
    ys = np.asarray(jax.vmap(lambda k: sc.likelihood_sample(jnp.array([r, sd, phi]), k))(keys(seed, n))) / phi
    ys[:, 0] = start
    rec('Ricker', start=fl(start), r=fl(F32(r)), sd=fl(F32(sd)), steps=steps, paths=vec(ys))


# ---- quantile functions -----------------------------------------------------------------------------------------
def own_summary(cls):
    class Sorted(cls):
        def summarise_data(self, data):
            return data[::-1]
    return Sorted


GKS = dict(plain=S.GKUniformPrior, transformed=S.GKTransformedUniformPrior, onlya=S.GKOnlyAUniformPrior, onlyatransformed=S.GKOnlyATransformedUniformPrior)


def gk(rec, which, x, n, settings, form, seed):
    sc = own_summary(GKS[which])()
    sc.n_unsummarised_data = n
    for k, v in settings.items():
        setattr(sc, k, jnp.array(f32(v)) if isinstance(v, list) else v)
    x = jnp.array(f32(x))
    only = which.startswith('onlya')
    y = np.asarray(sc.full_data_sample(x, key(seed)) if form == 'full' else sc.likelihood_sample(x, key(seed)))
    d = 1 if only else 4
    fixed = dict(dict(prior_mins=0., prior_maxs=10., c=0.8, B=1., g=2., k=0.5), **settings)   # the stated defaults
    lo, hi = (np.broadcast_to(np.asarray(fixed[v], dtype=float), (d,)) for v in ('prior_mins', 'prior_maxs'))
    th = np.asarray(x, dtype=float)
    if 'transformed' in which:
        from scipy.stats import norm
        th = lo + norm.cdf(th) * (hi - lo)
    p = dict(a=th[0], b=fixed['B'], g=fixed['g'], k=fixed['k']) if only else dict(a=th[0], b=th[1], g=th[2], k=th[3])
    rec('GK', p=dict({k: fl(v) for k, v in p.items()}, c=fl(fixed['c'])), ys=vec(y), n=n, only=only)
    if form == 'full':
        priors(rec, sc, 'box' if 'transformed' not in which else 'normal', d, lo, hi, seed)
        if 'transformed' in which:
            transforms(rec, sc, 'box', d, lo, hi, seed)


def points(kind, d, lo, hi, rng, m=10):
    if kind == 'box':
        inside = lo + rng.uniform(0.02, 0.98, size=(m, d)) * (hi - lo)
        out = inside.copy()
        for i in range(m):   # one coordinate outside, on either side
            j = i % d
            out[i, j] = (hi[j] + 0.3 * (hi[j] - lo[j])) if i % 2 else (lo[j] - 0.2 * (hi[j] - lo[j]))
        return np.vstack([inside, out])
    return rng.uniform(0.1, 3., size=(m, d)) if kind == 'exp' else rng.normal(size=(m, d)) * 1.5


def priors(rec, sc, kind, d, lo, hi, seed, rates=None, n=1500):
    xs = f32(points(kind, d, lo, hi, np.random.RandomState(seed)))
    draws = jax.vmap(sc.prior_sample)(keys(seed + 1, n))
    pots = [np.ravel(np.asarray(sc.prior_potential(jnp.array(x), key(0))))[0] for x in xs]
    rec('Prior', kind=kind, dim=d, lo=vec(f32(lo)) if lo is not None else [], hi=vec(f32(hi)) if hi is not None else [], rates=vec(f32(rates)) if rates is not None else [],
        draws=vec(draws), xs=vec(xs), pots=vec(pots))


def transforms(rec, sc, kind, d, lo, hi, seed, m=8):
    xs = f32(np.random.RandomState(seed).uniform(-2.2, 2.2, size=(m, d)))
    cs = [np.asarray(sc.constrain(jnp.array(x))) for x in xs]
    back = [np.asarray(sc.unconstrain(jnp.array(c))) for c in cs]
    rec('Transform', kind=kind, lo=vec(f32(lo)) if lo is not None else [], hi=vec(f32(hi)) if hi is not None else [], xs=vec(xs), cs=vec(cs), back=vec(back))


def rates_priors(rec, cls, d, rates, seed):
    tr = cls.startswith('Transformed')
    sc = getattr(S, cls)()
    if rates is None:
        rates = np.ones(d)
    else:
        sc.prior_rates = jnp.array(f32(rates))
    priors(rec, sc, 'logexp' if tr else 'exp', d, None, None, seed, rates=rates)
    if tr:
        transforms(rec, sc, 'exp', d, None, None, seed)


# ---- linear Gaussian --------------------------------------------------------------------------------------------
def linear(rec, d, dy, form, history, seed, n=1500):
    rng = np.random.RandomState(seed)
    par = dict(mean=rng.normal(size=d), cov=np.asarray(spd(d, seed)), h=rng.normal(size=(dy, d)), r=np.asarray(spd(dy, seed + 1, 0.7)), data=rng.normal(size=dy))
    if form == 'scalars':
        sc = S.LinearGaussian(prior_mean=0.5, prior_covariance=2.25, data=jnp.array(f32(par['data'])), likelihood_matrix=jnp.array(f32(par['h'])), likelihood_covariance=0.49)
        par.update(mean=np.full(d, 0.5), cov=np.eye(d) * 2.25, r=np.eye(dy) * 0.49)
    else:
        sc = S.LinearGaussian(prior_mean=jnp.array(f32(par['mean'])), prior_covariance=jnp.array(f32(par['cov'])), data=jnp.array(f32(par['data'])),
                              likelihood_matrix=jnp.array(f32(par['h'])), likelihood_covariance=jnp.array(f32(par['r'])))
    names = dict(mean='prior_mean', cov='prior_covariance', h='likelihood_matrix', r='likelihood_covariance', data='data')
    for op, v in history:
        r2 = np.random.RandomState(seed + 100 * v)
        new = dict(mean=r2.normal(size=d), cov=np.asarray(spd(d, seed + 3 * v, 1.6)), h=r2.normal(size=(dy, d)), r=np.asarray(spd(dy, seed + 5 * v, 0.4)), data=r2.normal(size=dy))[op]
        par[op] = new
        setattr(sc, names[op], jnp.array(f32(new)))
    at = jnp.array(f32(rng.normal(size=d)))
    xs = f32(rng.normal(size=(6, d)) * 1.5)
    k = random.split(key(seed), 2)
    val = lambda f: vec([np.ravel(np.asarray(f(jnp.array(x), key(0))))[0] for x in xs])
    rec('Linear', **{a: vec(f32(par[a])) for a in par}, at=vec(at), xs=vec(xs), draws=vec(jax.vmap(sc.prior_sample)(random.split(k[0], n))), sims=vec(jax.vmap(lambda q: sc.likelihood_sample(at, q))(random.split(k[1], n))),
        prior=val(sc.prior_potential), lik=val(sc.likelihood_potential))


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    cs = json.load(open(casefile))
    rng = pyrandom.Random(seed)
    rng.shuffle(cs)
    out = []
    want = len(cs) if big else 60
    pp = 0
    for i, c in enumerate(cs[:want]):
        th = [float(v) for v in c['theta']]
        s = seed * 101 + i
        if c['kind'] == 'sir':
            out.append((f'sir {c["start"]} {th[:2]}', sir_paths, c['start'], [th[0], max(th[1], 0.2)], 40, 30 if i % 2 else 8, i % 3 == 0, 'built' if i % 2 else 'set', s))
        else:
            pp += 1
            born = th[0] > 0
            form = ('function', 'function', 'set', 'transformed built', 'function', 'built')[pp % 6]
            times = ([0., 0.15, 0.4], [0.5, 0.7, 0.75], [0., 0.3], [2., 2.01, 2.3])[i % 4]
            if form.startswith('transformed') and min(th) == 0:
                th = [max(v, 0.1) for v in th]
                born = True
            out.append((f'predator prey {c["start"]} {th} {form} {times}', predprey, c['start'], th, times, 3000, 40, 6 if born else 10, form, s))
    for rep in range(5 if big else 1):
        s = seed * 57 + rep * 19
        for i, (start, th, tr) in enumerate((((12, 2), (2.5, 0.7), False), ((30, 1), (1.4, 1.), True), ((6, 6), (0.3, 2.), False), ((20, 3), (5., 0.4), True), ((5, 0), (1., 1.), False))):
            out.append((f'epidemic {start} {th} {tr} #{rep}', sir_paths, start, th, 60 if start[0] > 15 else 120, 80, tr, 'set', s + i))
            out.append((f'short epidemic {start} {th} {tr} #{rep}', sir_paths, start, th, 200, 3, tr, 'built', s + i + 5))
        # growing populations use up the iterations before the last time: early states must still be right
        for i, form in enumerate(('function', 'set', 'transformed built')):
            out.append((f'exploding {form} #{rep}', predprey, (6, 2), (2., 0.3, 0.4), [0., 0.01, 0.05], 3000, 400, 6, form, s + i))
            out.append((f'limited {form} #{rep}', limited, (6, 2), (6., 0.3, 0.4), (0., 0.01, 0.05), 30, form, s + i))
        for i, (start, r, sd, steps) in enumerate(((1, 3.5, 0.3, 6), (1, 2., 1., 10), (3, 6., 0.1, 5), (1, 4., 0., 6), (2, 2.5, 0., 1))):
            out.append((f'ricker path {start} {r} {sd} {steps} #{rep}', ricker_paths, float(start), r, sd, steps, 300, s + i))
            if 0 < sd < 0.5:
                out.append((f'ricker observed {start} {r} {sd} {steps} #{rep}', ricker_observed, float(start), r, sd, steps, 200, s + i))
        for i, (start, r, phi, steps, inds) in enumerate(((1., 3., 4., 6, (0, 3, 6)), (1., 5., 10., 5, (5, 2, 2, 1)), (2., 1.5, 0.7, 3, (3,)), (1., 0.2, 3., 4, (0, 1, 2, 3, 4)), (0.5, 2., 100., 2, (1, 2)))):
            out.append((f'ricker counts {start} {r} {phi} {inds} #{rep}', ricker_counts, start, r, phi, steps, inds, 1500, 'set' if i % 2 else 'built', s + i))
        lim = dict(prior_mins=[-1., 0.2, -2., 0.1], prior_maxs=[4., 3., 5., 1.2])
        for i, (which, x, settings) in enumerate((('plain', [3., 1., 2., 0.5], {}), ('plain', [-1., 2.5, 0.3, 0.05], dict(lim)), ('plain', [0., 0.7, -1.5, 1.5], dict(c=0.4)), ('transformed', [-0.5, -1.3, -0.8, -1.6], {}),
                                                  ('transformed', [0.2, 0.5, -0.4, -1.], dict(lim)), ('transformed', [0.7, -0.5, 1., -1.8], dict(c=0.5, prior_maxs=6.)),
                                                  ('onlya', [3.], {}), ('onlyatransformed', [-0.5], {}), ('onlya', [1.], dict(B=2., g=1., k=0.8)), ('onlyatransformed', [0.3], dict(B=0.5, g=3., k=0.8, prior_mins=-5., prior_maxs=2.)))):
            for form in ('full', 'summary'):
                out.append((f'gk {which} {x} {sorted(settings)} {form} #{rep}', gk, which, x, 2000, settings, form, s + i))
        for i, (cls, d) in enumerate((('SIR', 2), ('TransformedSIR', 2), ('LotkaVolterra', 3), ('TransformedLotkaVolterra', 3))):
            for j, rates in enumerate((None, [0.5, 3., 1.5][:d])):
                out.append((f'priors {cls} {rates} #{rep}', rates_priors, cls, d, rates, s + 2 * i + j))
        ops = ('mean', 'cov', 'h', 'r', 'data')
        for i, (d, dy) in enumerate(((1, 1), (2, 2), (3, 2), (2, 3), (4, 1))):
            out.append((f'linear {d} {dy} #{rep}', linear, d, dy, 'arrays', (), s + i))
            out.append((f'linear {d} {dy} scalars #{rep}', linear, d, dy, 'scalars', (), s + i))
            hist = [(rng.choice(ops), rng.choice((1, 2, 3))) for _ in range(4)]
            out.append((f'linear {d} {dy} changed {hist} #{rep}', linear, d, dy, 'arrays' if i % 2 else 'scalars', hist, s + i))
    return out


def limited(rec, start, theta, times, limit, form, seed):
    """The last requested time is beyond what the iteration limit reaches; the earlier ones are not."""
    start_ = jnp.array(start)
    ts = jnp.array(f32(list(times) + [50.]))
    th = f32(theta)
    if form == 'function':
        f = lambda k: S.lotka_volterra_simulate(start_, ts, jnp.array(th), k, limit)
    else:
        tr = form.startswith('transformed')
        sc = changed(S.TransformedLotkaVolterra if tr else S.LotkaVolterra, 'set', initial_prey_pred=start_, times=ts, max_iter=limit)
        f = lambda k: sc.likelihood_sample(jnp.log(jnp.array(th)) if tr else jnp.array(th), k)
    ys = np.asarray(jax.jit(jax.vmap(f))(keys(seed, 3000)))[:, :len(times) - 1]
    prey = form != 'function'
    rec('Law', prey=prey, kind='predprey', theta=vec(th), pop=1, start=list(start), times=vec(f32(times)), events=6,
        table=table([[int(a) for a in y] if prey else [[int(a) for a in s] for s in y] for y in ys]))
