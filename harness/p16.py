"""State-space models: densities, gradients, samples, simulations, before and after changes."""
import json

from ssmrun import *

Lorenz63, Lorenz96 = mssm.scenarios.Lorenz63, mssm.scenarios.Lorenz96
FIELDS = dict(mean='initial_mean', cov='initial_covariance', f='transition_matrix', q='transition_covariance', h='likelihood_matrix', r='likelihood_covariance')


def lorenz(which, d, dy, seed):
    p = parameters(d, dy, seed)
    p.pop('f')
    j = {k: jnp.array(v, dtype=F32) for k, v in p.items()}
    kw = dict(initial_mean=j['mean'], initial_covariance=j['cov'], transition_covariance=j['q'], likelihood_matrix=j['h'], likelihood_covariance=j['r'])
    if which == 63:
        e = dict(sigma=9., rho=25., beta=2.5)
        return Lorenz63(**e, **kw), dict(record('lorenz63', p), **{k: fl(v) for k, v in e.items()}), dict(p, kind='lorenz63', **e)
    e = dict(forcing=7.)
    return Lorenz96(d, 7., **kw), dict(record('lorenz96', p), forcing=fl(7.)), dict(p, kind='lorenz96', **e)


def default(which, d, *_):
    """Models with all parameters left out."""
    one = dict(mean=np.zeros(d), cov=np.eye(d), f=np.eye(d), q=np.eye(d), h=np.eye(d), r=np.eye(d))
    if which == 'linear':
        return TimeHomogenousLinearGaussian(dim=d), record('linear', one), dict(one, kind='linear')
    if which == 'volatility':
        p = dict(one, r=np.ones(d))
        p.pop('h')
        return StochasticVolatility(d), record('volatility', p), dict(p, kind='volatility')
    if which == 'benchmark':
        p = dict(mean=np.zeros(1), cov=np.eye(1) * 2, q=np.eye(1) * 10, r=np.eye(1))
        return NonLinear1DBenchmark(), record('benchmark', p), dict(p, kind='benchmark')
    one.pop('f')
    if which == 63:
        return Lorenz63(), dict(record('lorenz63', one), sigma=fl(10.), rho=fl(28.), beta=fl(8 / 3)), dict(one, kind='lorenz63')
    return Lorenz96(d), dict(record('lorenz96', one), forcing=fl(8.)), dict(one, kind='lorenz96')


def benchmark_sds(*_):
    return benchmark()


def build(name, args):
    if name == 'lorenz':
        return lorenz(*args)
    if name == 'default':
        return default(*args)
    return MODELS[name](*args)


def points(kind, d, n, rng):
    if kind in ('lorenz63', 'lorenz96'):
        return (rng.normal(size=(n, d)) * 4).astype(F32)
    return (rng.normal(size=(n, d)) * (3. if kind == 'benchmark' else 1.3)).astype(F32)


def density(rec, ssm, m, par, s, t, seed, n=4, graded=True):
    rng = np.random.RandomState(seed)
    kind, d, dy = par['kind'], ssm.dim, ssm.dim_obs
    xs, ys = points(kind, d, n, rng), (rng.normal(size=(n, dy)) * 2).astype(F32)
    s, t = float(np.float32(s)), float(np.float32(t))
    zs = np.array([np.asarray(ssm.transition_sample(jnp.array(x), s, t, key(seed + i))) for i, x in enumerate(xs)], dtype=F32)
    zs = (zs + rng.normal(size=zs.shape) * 0.3).astype(F32)
    f = dict(m=m, s=fl(s), t=fl(t), xs=vec(xs), zs=vec(zs), ys=vec(ys), graded=graded, tol='2e-3' if 'lorenz' not in kind else '5e-3')
    J = [tuple(map(jnp.array, a)) for a in zip(xs, zs, ys)]
    f.update(init=vec([ssm.initial_potential(x, s) for x, z, y in J]), trans=vec([ssm.transition_potential(x, s, z, t) for x, z, y in J]), obs=vec([ssm.likelihood_potential(x, y, t) for x, z, y in J]))
    f = {k: ([np.ravel(v)[0] for v in f[k]] if k in ('init', 'trans', 'obs') else f[k]) for k in f}
    if graded:
        a = [ssm.initial_potential_and_grad(x, s) for x, z, y in J]
        b = [ssm.transition_potential_and_grad(x, s, z, t) for x, z, y in J]
        c = [ssm.likelihood_potential_and_grad(x, y, t) for x, z, y in J]
        g = [ssm.grad_transition_potential(x, s, z, t) for x, z, y in J]
        f.update(ginit=vec([ssm.grad_initial_potential(x, s) for x, z, y in J]), gtrans1=vec([v[0] for v in g]), gtrans2=vec([v[1] for v in g]), gobs=vec([ssm.grad_likelihood_potential(x, y, t) for x, z, y in J]),
                 pinit=vec([v[0] for v in a]), ptrans=vec([v[0] for v in b]), pobs=vec([v[0] for v in c]),
                 hinit=vec([v[1] for v in a]), htrans1=vec([v[1][0] for v in b]), htrans2=vec([v[1][1] for v in b]), hobs=vec([v[1] for v in c]))
    rec('Density', **f)


def joint(rec, ssm, m, par, ts, seed, n=2, graded=True):
    rng = np.random.RandomState(seed)
    kind, d, dy = par['kind'], ssm.dim, ssm.dim_obs
    ts = jnp.array(ts, dtype=F32)
    xs, ys, pots, grads = [], [], [], []
    for k in range(n):
        x = [points(kind, d, 1, rng)[0]]
        for i in range(1, len(ts)):
            x.append(np.asarray(ssm.transition_sample(jnp.array(x[-1]), ts[i - 1], ts[i], key(seed * 10 + k * 100 + i))))
        x, y = jnp.array(np.array(x, dtype=F32)), jnp.array(rng.normal(size=(len(ts), dy)) * 2, dtype=F32)
        xs.append(x), ys.append(y), pots.append(np.ravel(ssm.smoothing_potential(x, y, ts)).sum())
        if graded:
            grads.append(ssm.grad_smoothing_potential(x, y, ts))
    rec('Joint', m=m, ts=vec(ts), xs=vec(xs), ys=vec(ys), pot=vec(pots), graded=graded, grad=vec(grads) if graded else [], tol='2e-3' if 'lorenz' not in kind else '5e-3')


def samples(rec, ssm, m, par, s, t, n, seed):
    rng = np.random.RandomState(seed)
    x = jnp.array(points(par['kind'], ssm.dim, 1, rng)[0])
    s, t = float(np.float32(s)), float(np.float32(t))
    k3 = random.split(key(seed), 3)
    rec('Sample', what='initial', m=m, t=fl(s), draws=vec(jax.vmap(lambda k: ssm.initial_sample(s, k))(random.split(k3[0], n))))
    rec('Sample', what='transition', m=m, s=fl(s), t=fl(t), x=vec(x), draws=vec(jax.vmap(lambda k: ssm.transition_sample(x, s, t, k))(random.split(k3[1], n))))
    rec('Sample', what='observation', m=m, t=fl(t), x=vec(x), draws=vec(jax.vmap(lambda k: ssm.likelihood_sample(x, t, k))(random.split(k3[2], n))))


def simulations(rec, ssm, m, par, ts, n, seed):
    ts = jnp.array(ts, dtype=F32)
    out = jax.vmap(lambda k: (lambda c: (c.x, c.y, c.t))(ssm.simulate(ts, k)))(random.split(key(seed), n))
    x, y, t = map(np.asarray, out)
    shape = x.shape == (n, len(ts), ssm.dim) and y.shape == (n, len(ts), ssm.dim_obs) and np.allclose(t, np.asarray(ts))
    rec('Simulate', m=m, ts=vec(ts), xs=vec(x.transpose(1, 0, 2)), ys=vec(y.transpose(1, 0, 2)), shape=bool(shape))


def plain(rec, name, args, times, seed, n, graded):
    ssm, m, par = build(name, args)
    density(rec, ssm, m, par, times[0], times[1], seed, graded=graded)
    density(rec, ssm, m, par, times[2], times[3], seed + 1, graded=False)
    for T in (1, 2, 3, len(times)):
        joint(rec, ssm, m, par, times[:T], seed + T, graded=graded)
    samples(rec, ssm, m, par, times[1], times[2], n, seed)
    simulations(rec, ssm, m, par, times[:3], n // (10 if 'lorenz' in par['kind'] else 2), seed)


def set_parameter(ssm, m, par, op, v, seed):
    """Replace one parameter of a live model; True if the model has it."""
    kind, d, dy = par['kind'], ssm.dim, ssm.dim_obs
    new = parameters(d, dy, seed + 31 * v)[op]
    if kind == 'benchmark':
        if op not in ('cov', 'q', 'r'):
            return False
        sd = float(0.5 + 0.7 * v)
        setattr(ssm, dict(cov='initial_sd', q='transition_sd', r='likelihood_sd')[op], sd)
        new = np.array([[sd ** 2]])
    elif kind == 'volatility' and op == 'r':
        new = np.linspace(0.3, 0.9, d) * v
        ssm.likelihood_covariance_diag = jnp.array(new, dtype=F32)
    elif kind == 'lorenz63' and op == 'f':
        ssm.sigma, ssm.rho, ssm.beta = 8. + v, 20. + 3 * v, 2. + 0.3 * v
        m.update(sigma=fl(ssm.sigma), rho=fl(ssm.rho), beta=fl(ssm.beta))
        return True
    elif kind == 'lorenz96' and op == 'f':
        ssm.forcing_constant = 5. + v
        m.update(forcing=fl(ssm.forcing_constant))
        return True
    elif kind in ('volatility', 'sine') and (op == 'h' and kind == 'volatility'):
        return False
    elif kind == 'sine' and op == 'f':
        ssm.f = jnp.array(new, dtype=F32)
    elif kind == 'drifting':
        ssm_field = op
        setattr(ssm, ssm_field, jnp.array(new, dtype=F32))
    else:
        setattr(ssm, FIELDS[op], jnp.array(new, dtype=F32))
    m[op] = vec(np.asarray(new, dtype=F32))
    return True


def changed(rec, name, args, histories, seed):
    ssm, m, par = build(name, args)
    s, t = (0.5, 0.6) if 'lorenz' in par['kind'] else (0.5, 1.7)
    density(rec, ssm, m, par, s, t, seed, n=2)
    for h, hist in enumerate(histories):
        done = [set_parameter(ssm, m, par, o['op'], o['v'], seed + h) for o in hist]
        if any(done):
            density(rec, ssm, m, par, s, t, seed + h, n=2, graded=h % 4 == 0)
            if h % 4 == 1:
                samples(rec, ssm, m, par, s, t, 250, seed + h)
            if h % 6 == 2 and 'lorenz' not in par['kind']:
                joint(rec, ssm, m, par, (0.5, 0.8, 2.1), seed + h, n=2, graded=False)


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    out = []
    hs = json.load(open(casefile))
    sets = [('linear', (2, 2, 5)), ('linear', (3, 1, 6)), ('drifting', (2, 2, 7)), ('sine', (2, 3, 8)), ('volatility', (2, 2, 9)), ('benchmark', ()), ('lorenz', (63, 3, 2, 3)), ('lorenz', (96, 5, 3, 4))]
    import random as pyrandom
    order = list(range(len(hs)))
    pyrandom.Random(seed).shuffle(order)
    for i, (name, args) in enumerate(sets):
        use = [hs[k] for k in (order if big else order[i * 12:(i + 1) * 12])]
        for c in range(0, len(use), 12):
            out.append((f'changes {name} {args} {c}', changed, name, args, use[c:c + 12], seed * 7 + c))
    for rep in range(4 if big else 1):
        s = seed * 41 + rep * 13
        n = (2000, 4000, 1000, 3000)[rep]
        for name, args in (('linear', (1, 1, 1)), ('linear', (2, 2, 2)), ('linear', (3, 2, 3)), ('linear', (2, 4, 4)), ('drifting', (2, 2, 5)), ('drifting', (3, 1, 6)), ('sine', (2, 2, 7)), ('sine', (1, 2, 8)), ('volatility', (2, 2, 9)), ('volatility', (3, 3, 10)),
                           ('volatility', (1, 1, 11)), ('benchmark', ()), ('default', ('linear', 3)), ('default', ('volatility', 2)), ('default', ('benchmark', 1))):
            for g in (('uneven', 'half') if big or name in ('volatility', 'drifting', 'benchmark') else ('uneven',)):
                a = args if len(args) < 3 else (args[0], args[1], args[2] + 100 * rep)
                out.append((f'{name} {a} {g} #{rep}', plain, name, a, tuple(float(v) for v in GAPS[g][:5]), s, n, True))
        for args in ((63, 3, 3, 1), (63, 3, 1, 2), (96, 5, 2, 3), (96, 4, 4, 4)):
            out.append((f'lorenz {args} #{rep}', plain, 'lorenz', args[:3] + (args[3] + 100 * rep,), (0.1, 0.2, 0.25, 0.4, 0.41), s, n, True))
        for args in ((63, 3), (96, 6)):
            out.append((f'default lorenz {args} #{rep}', plain, 'default', args, (0., 0.1, 0.15, 0.3), s, n, rep == 0))
    return out
