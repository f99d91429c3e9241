"""Backward simulation."""
import json

from backrun import *
from mocat.ssm import backward_simulation, forward_filtering_backward_simulation

OBJECTS = {}


def model(name, margs):
    """One object per worker and model: compiled once."""
    if (name, margs) not in OBJECTS:
        OBJECTS[name, margs] = MODELS[name](*margs)
    return OBJECTS[name, margs]


def backward_event(rec, m, p, out, n, limit, bound):
    x = np.asarray(p.value)
    T, N, d = x.shape
    v = np.asarray(out.value)
    shape = v.shape == (T, n, d) and np.array_equal(np.asarray(out.t), np.asarray(p.t)) and np.array_equal(np.asarray(out.y), np.asarray(p.y))
    idx = indices(x, v) if v.ndim == 3 and v.shape[0] == T and v.shape[2] == d else np.zeros((T, n), dtype=int)
    ok = np.all(idx > 0, axis=0)
    idx = idx[:, ok] - 1
    pairs = np.zeros((T - 1, N, N), dtype=int)
    triples = np.zeros((max(T - 2, 0), N, N, N), dtype=int)
    for t in range(T - 1):
        np.add.at(pairs[t], (idx[t + 1], idx[t]), 1)
        if t < T - 2:
            np.add.at(triples[t], (idx[t + 2], idx[t + 1], idx[t]), 1)
    rec('Backward', m=m, ts=vec(p.t), x=vec(x), lw=vec(p.log_weight), cls=classes(x), n=n, limit=limit, bound='none' if bound is None else fl(np.float32(bound)),
        shape=bool(shape), foreign=int((~ok).sum()), last=ints(np.bincount(idx[-1], minlength=N)), pairs=ints(pairs), triples=ints(triples),
        evals=vec(np.asarray(out.num_transition_evals)[1:]))


def simulate(ssm, p, n, seed, limit, bound, explicit=True):
    kw = {}
    if limit:
        kw['maximum_rejections'] = limit
        if bound is not None:
            kw['transition_dens_bound_parameter'] = float(bound)
    if explicit:
        kw['n_samps'] = n
    return backward_simulation(ssm, p, key(seed), **kw)


def enumerated(rec, which, ys, limit, bound, n, seed):
    """Both states with their exact filtering weights."""
    ssm, m, par = model('lattice', (which,))
    a, P, G = (np.array(par[k]) for k in ('p0', 'p', 'g'))
    f, fs = a, []
    for i, y in enumerate(ys):
        f = (f if i == 0 else f @ P) * G[:, y - 1]
        f = f / f.sum()
        fs.append(f)
    T = len(ys)
    with np.errstate(divide='ignore'):
        p = cdict(value=jnp.tile(jnp.array([[1.], [2.]]), (T, 1, 1)), log_weight=jnp.array(np.log(np.array(fs)), dtype=F32), t=jnp.arange(T) * 1., y=jnp.array(ys, dtype=F32)[:, None], ess=jnp.ones(T))
    out = simulate(ssm, p, n, seed, limit, bound)
    backward_event(rec, m, p, out, n, limit, bound if limit else None)


def generic(rec, name, margs, gaps, T, N, n, seed, limit, loose=None, zeros=False, repeat=False, explicit=True):
    ssm, m, par = model(name, margs)
    p = particle_set(ssm, par, GAPS[gaps][:T], N, seed, zeros, 2.5 if name == 'benchmark' else 1., repeat)
    bound = None
    if loose is not None:
        tp = jax.vmap(jax.vmap(ssm.transition_potential, (None, None, 0, None)), (0, None, None, None))
        dens = max(float(jnp.max(jnp.exp(-tp(p.value[t], p.t[t], p.value[t + 1], p.t[t + 1])))) for t in range(T - 1))
        bound = dens * loose
    out = simulate(ssm, p, n, seed, limit, bound, explicit)
    backward_event(rec, m, p, out, n, limit, bound if name not in ('benchmark', 'volatility') else None)


def smooth(rec, name, margs, gaps, T, n, n_pf, seed, limit, one_dimensional=False):
    ssm, m, par = model(name, margs)
    ts = jnp.array(GAPS[gaps][:T], dtype=F32)
    ys = ssm.simulate(ts, key(seed + 100)).y
    kw = {}
    if limit:
        kw['maximum_rejections'] = limit
    if n_pf != n:
        kw['n_pf'] = n_pf
    out = forward_filtering_backward_simulation(ssm, BootstrapFilter(), ys[:, 0] if one_dimensional else ys, ts, n, key(seed), **kw)
    v = np.asarray(out.value)
    distinct = max(len(np.unique(v[t], axis=0)) for t in range(len(v)))
    rec('Smooth', m=m, exact=name != 'sine' and n_pf > 100, distinct=distinct, ts=vec(ts), ys=vec(ys), npf=n_pf, x=vec(v), shape=bool(v.shape == (T, n, ssm.dim) and np.allclose(out.t, ts) and np.allclose(np.asarray(out.y).ravel(), np.asarray(ys).ravel())))


def rare(rec, seed, runs, n):
    """Half the draws find slowly that the bound was too low; the other half have been accepted by then."""
    ssm, m, par = model('linear', (1, 1, 3))
    q, f = float(par['q'][0, 0]), float(par['f'][0, 0])
    x = (np.array([4., 0.]) * np.sqrt(q) / f).astype(F32)
    z = (np.array([0., 1.425]) * np.sqrt(q)).astype(F32)
    lw = np.log(np.array([0.99, 0.01])).astype(F32)
    p = cdict(value=jnp.array(np.stack([x[:, None], z[:, None]]), dtype=F32), log_weight=jnp.array(np.stack([lw, np.zeros(2)]), dtype=F32), t=jnp.array([0., 1.]), y=jnp.zeros((2, 1)), ess=jnp.ones(2))
    counts = np.zeros(2, dtype=int)
    for r in range(runs):
        out = simulate(ssm, p, n, seed * 1000 + r, 5000, None)
        idx = indices(p.value, out.value)
        counts += np.bincount(idx[0][idx[1] == 2], minlength=3)[1:]
    rec('Rare', m=m, x=vec(x[:, None]), lw=vec(lw), s='0', t='1', z=vec(z[1:]), counts=ints(counts), n=int(counts.sum()), allow='0.012')


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    out = []
    for j, c in enumerate(json.load(open(casefile))):
        if not big and j % 4 != seed % 4:
            continue
        out.append((f'enumerated model {c["model"]} observations {c["ys"]} limit {c["limit"]} bound {c["bound"]}', enumerated, c['model'], c['ys'], c['limit'], float(c['bound']), 800, seed + j))
    for rep in range(4 if big else 1):
        s = seed * 31 + rep * 17
        n = (1500, 3000, 5000, 900)[rep]
        j = 0
        for name, margs in (('linear', (2, 1, 1)), ('linear', (1, 2, 2)), ('drifting', (2, 2, 3)), ('sine', (2, 2, 4)), ('benchmark', ()), ('volatility', (2, 2, 5)), ('lattice', (3,))):
            for limit, loose in ((0, None), (1, 1.0001), (4, 1.6), (40, 1.0001), (40, 30.), (30, None)):
                j += 1
                if not big and (j + seed) % 2:
                    continue
                N = (4, 6, 5, 7)[j % 4]
                if limit == 30:
                    N = 4
                out.append((f'{name} {margs} limit {limit} bound {loose} #{rep}', generic, name, margs, 'unit' if name in ('linear', 'lattice') or (big and rep == 3) else 'uneven', (3, 4, 2)[(j + rep) % 3], N, n, s + j, limit, loose,
                            j % 2 == 0 and limit != 30, j % 3 == 0))
        out.append((f'one time #{rep}', generic, 'linear', (2, 1, 1), 'unit', 1, 5, n, s, 0, None, True))
        out.append((f'one time, rejection #{rep}', generic, 'linear', (2, 1, 1), 'unit', 1, 5, n, s, 5, None, True))
        out.append((f'default number #{rep}', generic, 'linear', (2, 1, 1), 'unit', 3, 4, 4, s, 0, None, False, False, False))
        for k in range(4):
            out.append((f'few trajectories {k} #{rep}', generic, 'sine', (2, 2, 4), 'uneven', 4, 6, (1, 2, 3, 5)[k], s + k, (0, 3)[k % 2], (None, 1.2)[k % 2], True))
        for name, margs, gaps, n2, n_pf, limit, one in (('linear', (2, 1, 11), 'uneven', 1500, 1500, 0, True), ('drifting', (2, 2, 12), 'uneven', 1000, 2500, 20, False), ('linear', (1, 1, 13), 'unit', 3000, 1500, 0, True),
                                                        ('linear', (2, 3, 14), 'half', 2500, 1000, 50, False), ('linear', (2, 1, 15), 'unit', 120, 4, 0, False), ('sine', (2, 2, 16), 'uneven', 120, 5, 10, False)):
            out.append((f'smooth {name} {margs} limit {limit} #{rep}', smooth, name, margs, gaps, 4, n2, n_pf, s, limit, one))
        out.append((f'rare particle #{rep}', rare, s, 500, 30))
    return out
