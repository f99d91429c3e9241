"""Fixed-lag online smoothing."""
import json

from backrun import *
from p13 import model
from mocat.ssm import propagate_particle_smoother


class Settled(ParticleFilter):
    """Proposes a known state, so that all randomness is in the gluing."""
    def proposal_sample(self, ssm, x_previous, t_previous, y_new, t_new, random_key):
        return 0.8 * x_previous + 0.3 * jnp.sin(3 * x_previous)

    def proposal_potential(self, ssm, x_previous, t_previous, x_new, y_new, t_new):
        return 0.7 * jnp.sum(jnp.cos(2 * x_previous))


FILTERS = {}


def the_filter(kind, name, margs, par):
    if (kind, name, margs) not in FILTERS:
        FILTERS[kind, name, margs] = Settled() if kind == 'settled' else filter_of(kind, par)
    return FILTERS[kind, name, margs]


def as_particles(p):
    """What initiate_particles returns, whatever follows."""
    return p


def run_smoother(ssm, pf, ys, ts, n, seed, lag, bs, each=None, **kw):
    ks = random.split(key(seed), len(ts))
    p = initiate_particles(ssm, pf, n, ks[0], ys[0], ts[0])
    for i in range(1, len(ts)):
        before = p
        p = propagate_particle_smoother(ssm, pf, p, ys[i], ts[i], ks[i], lag, bs, **kw)
        if each is not None:
            each(before, p, i)
    return p


def lattice_law(rec, which, lag, bs, kind, limit, sequences, n, seed):
    """Frequencies of all paths after every step."""
    ssm, m, par = model('lattice', ({1: 1, 2: 4}[which],))
    pf = the_filter(kind, 'lattice', which, par)
    ts = jnp.arange(len(sequences[0])) * 1.
    for r, ys in enumerate(sequences):
        def each(_, p, i):
            if i + 1 < len(ys) and i + 1 <= lag:
                return
            x = np.asarray(p.value)[..., 0]
            w = np.exp(np.asarray(p.log_weight) - np.max(p.log_weight))
            if i + 1 <= lag and not bs:        # weighted trajectories: relative weights per path
                w = n * w / w.sum()
            codes = sum((np.round(x[s]).astype(int) - 1) * 2 ** s for s in range(i + 1))
            counts = np.bincount(codes, weights=w, minlength=2 ** (i + 1))
            rec('Lattice', m=m, ys=list(ys[:i + 1]), lag=lag, n=n, flat=bool(np.ptp(w) < 1e-6), ess=fl(w.sum() ** 2 / np.sum(w ** 2)),
                paths=[[[(c >> s & 1) + 1 for s in range(i + 1)], fl(counts[c])] for c in range(2 ** (i + 1))])
        kw = dict(maximum_rejections=limit, init_bound_param=1.) if limit else {}
        run_smoother(ssm, pf, jnp.array(ys, dtype=F32)[:, None], ts, n, seed + r, lag, bs, each, **kw)


def gauss(rec, name, margs, gaps, T, lag, bs, kind, limit, n, seed, ess=None, one_dimensional=False):
    ssm, m, par = model(name, margs)
    pf = the_filter(kind, name, margs, par)
    ts = jnp.array(GAPS[gaps][:T], dtype=F32)
    ys = ssm.simulate(ts, key(103)).y
    kw = {}
    if limit:
        det = np.linalg.det(np.asarray(par['q'], dtype=float)) * (min(np.diff(np.asarray(ts))) ** ssm.dim if par['kind'] == 'drifting' else 1)
        kw = dict(maximum_rejections=limit, init_bound_param=float((2 * np.pi) ** (-ssm.dim / 2) / np.sqrt(det) * 1.001))
    if ess is not None:
        kw['ess_threshold'] = ess
    p = run_smoother(ssm, pf, ys, ts, n, seed, lag, bs, **kw)
    x, lw = np.asarray(p.value), np.asarray(p.log_weight)
    if np.ptp(lw) > 0:                         # pf with lag >= T: draw from the weighted trajectories
        w = np.exp(lw - lw.max())
        x = x[:, np.random.RandomState(seed).choice(n, n, p=w / w.sum())]
    rec('Gauss', m=m, ts=vec(ts), ys=vec(ys), lag=lag, x=vec(x.transpose(0, 2, 1)), n=n)


def handmade(ssm, par, name, ts, n, seed, weighted=False, zeros=False):
    p = particle_set(ssm, par, ts, n, seed, spread=1.)
    lw = np.zeros(n, dtype=F32)
    if weighted:
        lw = (np.random.RandomState(seed + 5).normal(size=n) * 0.8).astype(F32)
        if zeros:
            lw[n // 2] = -np.inf
    p.log_weight = jnp.array(lw)
    return p


def glue(rec, name, margs, gaps, T, lag, n, seed, limit, weighted, zeros, runs):
    """The same trajectories extended again and again: which late part is glued to which early one."""
    ssm, m, par = model(name, margs)
    pf = the_filter('settled', name, margs, par)
    ts = GAPS[gaps][:T].astype(F32)
    k = T - lag
    p = handmade(ssm, par, name, ts[:-1], n, seed, weighted, zeros)
    x = np.asarray(p.value)
    y = np.random.RandomState(seed + 9).normal(size=(ssm.dim_obs,)).astype(F32)
    new = np.asarray(jax.vmap(lambda a: pf.proposal_sample(ssm, a, ts[-2], y, ts[-1], None))(p.value[-1]))
    prop = np.asarray(jax.vmap(lambda a, b: pf.proposal_potential(ssm, a, ts[-2], b, y, ts[-1]))(p.value[-1], jnp.array(new)))
    full = np.concatenate([x, new[None]])
    kw = {}
    if limit:
        tp = jax.vmap(jax.vmap(ssm.transition_potential, (None, None, 0, None)), (0, None, None, None))
        kw = dict(maximum_rejections=limit, init_bound_param=float(jnp.max(jnp.exp(-tp(jnp.array(full[k - 1]), ts[k - 1], jnp.array(full[k]), ts[k])))) * 1.001)
    counts, foreign, flat = np.zeros((n, n), dtype=int), 0, True
    keys = random.split(key(seed), runs)
    if weighted:
        flat = flat and True
    for r in range(runs):
        out = propagate_particle_smoother(ssm, pf, p, jnp.array(y), float(ts[-1]), keys[r], lag, False, **kw)
        v = np.asarray(out.value)
        flat = flat and bool(np.all(np.asarray(out.log_weight) == 0))
        for i in range(n):
            a = [j for j in range(n) if np.array_equal(full[:k, j], v[:k, i])]
            b = [j for j in range(n) if np.allclose(full[k:, j], v[k:, i], rtol=1e-5, atol=1e-6)]
            if len(a) != 1 or len(b) != 1 or (not weighted and a[0] != i):
                foreign += 1
            else:
                counts[a[0], b[0]] += 1
    rec('Glue', m=m, ts=vec(ts), x=vec(full), k=k, y=vec(y), prop=vec(prop), lw=vec(p.log_weight), weighted=weighted, counts=ints(counts), foreign=int(foreign), flat=flat, runs=runs, limit=limit)


def structure(rec, name, margs, gaps, T, lag, bs, kind, limit, n, seed, ess=None, weighted=False):
    """One event per step."""
    ssm, m, par = model(name, margs)
    pf = the_filter(kind, name, margs, par)
    ts = jnp.array(GAPS[gaps][:T], dtype=F32)
    ys = ssm.simulate(ts, key(seed + 100)).y
    kw = dict(maximum_rejections=limit) if limit else {}
    if ess is not None:
        kw['ess_threshold'] = ess

    def each(b, a, i):
        def opt(c, f):
            return vec(getattr(c, f))
        rec('Step', m=m, lag=lag, bs=bs, kind=kind, ts=vec(ts[:i + 1]), ys=vec(ys[:i + 1]),
            before=dict(x=vec(b.value), lw=vec(np.atleast_2d(b.log_weight)[-1])),
            after=dict(x=vec(a.value), lw=vec(a.log_weight), t=vec(a.t), y=vec(a.y), ess=vec(np.ravel(a.ess)), shape=ints(np.shape(a.value)), evals=vec(np.ravel(a.num_transition_evals)[-1:])),
            filter=dict(x=vec(a.marginal_filter.value), t=vec(a.marginal_filter.t), y=vec(a.marginal_filter.y), lw=vec(a.marginal_filter.log_weight[-1]), shape=ints(np.shape(a.marginal_filter.value)),
                        had=vec(b.marginal_filter.value if hasattr(b, 'marginal_filter') else b.value)) if bs else 'none')
    run_smoother(ssm, pf, ys, ts, n, seed, lag, bs, each, **kw)


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    out = []
    groups = {}
    for c in json.load(open(casefile)):
        groups.setdefault((c['model'], c['lag']), []).append(tuple(c['ys']))
    for (which, lag), seqs in sorted(groups.items()):
        seqs = sorted(seqs)
        for j, (bs, kind, limit) in enumerate(((False, 'bootstrap', 0), (True, 'bootstrap', 0), (False, 'guided', 40), (True, 'guided', 3))):
            if not big and j >= 2 and (which + lag + seed) % 2 != j % 2:
                continue
            use = seqs if big else [s for r, s in enumerate(seqs) if (r + j + lag + seed) % 5 == 0]
            out.append((f'two-state model {which} lag {lag} {"backward" if bs else "forward"} {kind} limit {limit}', lattice_law, which, lag, bs, kind, limit, use, 2000, seed * 100))
    for rep in range(4 if big else 1):
        s = seed * 53 + rep * 19
        j = 0
        for name, margs, gaps, kind in (('sharp', (2, 2, 9, False), 'uneven', 'optimal'), ('sharp', (2, 1, 8, False), 'unit', 'bootstrap'), ('sharp', (2, 1, 11, True), 'half', 'guided'), ('sharp', (1, 1, 4, True), 'unit', 'bootstrap')):
            for lag in (1, 2, 3, 10):
                for bs in (False, True):
                    j += 1
                    if not big and (j + j // 2 + seed) % 2:
                        continue
                    out.append((f'{name} {margs} lag {lag} {"backward" if bs else "forward"} {kind} #{rep}', gauss, name, margs, gaps, 5, lag, bs, kind, (0, 30)[(j // 3) % 2], (1500, 2500, 900, 1500)[rep], s + j,
                                (None, 1.1, 0.)[j % 3] if bs else None))
        j = 0
        for name, margs in (('linear', (2, 1, 1)), ('drifting', (2, 2, 3)), ('sine', (2, 2, 4)), ('drifting', (1, 1, 4)), ('sine', (1, 2, 9))):
            for T, lag in ((2, 1), (3, 1), (4, 2), (5, 3), (4, 3)):
                j += 1
                if not big and (j + seed) % 2:
                    continue
                out.append((f'glue {name} {margs} of {T} lag {lag} #{rep}', glue, name, margs, 'uneven', T, lag, (4, 6, 5)[j % 3], s + j, (0, 1, 30)[(j // 2) % 3], j % 4 == 1, j % 8 == 1, 400))
        j = 0
        for name, margs, gaps in (('linear', (2, 1, 1), 'unit'), ('drifting', (2, 2, 3), 'uneven'), ('sine', (2, 2, 4), 'half'), ('volatility', (2, 2, 5), 'uneven'), ('benchmark', (), 'unit')):
            for lag in (1, 2, 4):
                for bs in (False, True):
                    j += 1
                    if not big and (j * 7 // 5 + j // 4 + seed) % 2:
                        continue
                    out.append((f'steps {name} {margs} lag {lag} {"backward" if bs else "forward"} #{rep}', structure, name, margs, gaps, 6, lag, bs, 'bootstrap' if j % 3 else 'guided', (0, 5)[(j // 2) % 2], (5, 8, 2)[j % 3], s + j,
                                (1.1, None, 0.)[(j // 2 + j // 12) % 3] if bs else None))
    return out
