"""Particle filters: every step of real runs."""
import json

from ssmrun import *


def past(value):
    """Trajectories (n lists of states) from an array (T, n, d)."""
    v = vec(np.swapaxes(np.asarray(value), 0, 1))
    return v


def start_event(rec, p, y, t, blind=False):
    hist = dict(t=vec(p.t), y=vec(p.y) if p.y is not None else [], ess=vec(p.ess))
    rec('Start', x=vec(p.value[-1]), lw=vec(p.log_weight[-1]), ess=fl(p.ess[-1]), seent=fl(p.t[-1]), seeny=vec(p.y[-1]) if p.y is not None else vec(y), t=fl(t), y=vec(y),
        blind=blind, newhist=hist)


def step_event(rec, ev, p, y, t):
    hist = dict(t=vec(p.t), y=vec(p.y), ess=vec(p.ess))
    rec(ev, x=vec(p.value[-1]), past=past(p.value[:-1]), lw=vec(p.log_weight[-1]), ess=fl(p.ess[-1]), seent=fl(p.t[-1]), seeny=vec(p.y[-1]), t=fl(t), y=vec(y),
        hist={k: v[:-1] for k, v in hist.items()}, newhist=hist)


def setup(rec, model, kind, thr, margs=(), simulate=True, gaps='unit', T=5, seed=0):
    ssm, m, par = MODELS[model](*margs)
    f = filter_of(kind, par)
    ts = jnp.array(GAPS[gaps][:T], dtype=F32)
    ys = ssm.simulate(ts, key(seed + 100)).y
    rec('Model', m=m, kind=kind, thr=fl(np.float32(thr)))
    return ssm, f, ts, ys


def steps(rec, model, margs, kind, thr, gaps, T, n, seed, how='whole', others=None):
    ssm, f, ts, ys = setup(rec, model, kind, thr, margs, gaps=gaps, T=T, seed=seed)
    if others is not None:      # the filter object has been used on another model before
        ssm2 = MODELS[others[0]](*others[1])[0]
        p = initiate_particles(ssm2, f, 7, key(1), jnp.ones(ssm2.dim_obs), 0.)
        propagate_particle_filter(ssm2, f, p, jnp.ones(ssm2.dim_obs), 1., key(2))
    keys = random.split(key(seed), T)
    p = initiate_particles(ssm, f, n, keys[0], ys[0], ts[0])
    start_event(rec, p, ys[0], ts[0])
    for i in range(1, T):
        full = how == 'whole' or (how == 'alternating' and i % 2 == 1)
        p = propagate_particle_filter(ssm, f, p, ys[i], ts[i], keys[i], **({} if thr == 0.5 and i % 2 else dict(ess_threshold=thr)), **({} if full else dict(resample_full=False)))
        step_event(rec, 'Step' if full else 'Latest', p, ys[i], ts[i])


def marginals(rec, model, margs, kind, thr, gaps, T, n, seed, supplied=False):
    ssm, f, ts, ys = setup(rec, model, kind, thr, margs, gaps=gaps, T=T, seed=seed)
    kw = {} if thr == 0.5 else dict(ess_threshold=thr)
    if supplied:
        p0 = initiate_particles(ssm, f, n, key(seed + 9), ys[0], ts[0])
        p = run_particle_filter_for_marginals(ssm, f, ys[1:], ts[1:], key(seed), initial_sample=p0, **kw)
    else:
        y = ys[:, 0] if ys.shape[1] == 1 and seed % 2 else ys
        p = run_particle_filter_for_marginals(ssm, f, y, ts, key(seed), n=n, **kw)
    for i in range(T):
        d = dict(x=vec(p.value[i]), lw=vec(p.log_weight[i]), ess=fl(p.ess[i]), seent=fl(p.t[i]), seeny=vec(p.y[i]), t=fl(ts[i]), y=vec(ys[i]))
        if i == 0:
            rec('Start', blind=False, newhist={}, **d)
        else:
            rec('Marginal', **d)


def posterior(rec, model, margs, kind, gaps, T, n, seed, thr=0.5):
    ssm, f, ts, ys = setup(rec, model, kind, thr, margs, gaps=gaps, T=T, seed=seed)
    p = run_particle_filter_for_marginals(ssm, f, ys, ts, key(seed), n=n, ess_threshold=thr)
    # thinned deterministically to keep the record small: the weighted particles of every fourth index are a fair subset
    rec('Posterior', ts=vec(ts), ys=vec(ys), x=vec(p.value[-1]), lw=vec(p.log_weight[-1]))


def ensemble(rec, model, margs, gaps, T, n, seed, way):
    ssm, m, par = MODELS[model](*margs)
    f = EnsembleKalmanFilter()
    ts = jnp.array(GAPS[gaps][:T], dtype=F32)
    ys = ssm.simulate(ts, key(seed + 100)).y
    rec('Model', m=m, kind='optimal', thr='0.5')
    if way == 'run':
        p = run_particle_filter_for_marginals(ssm, f, ys, ts, key(seed), n=n)
        vals, lws, tt, yy = p.value, p.log_weight, p.t, p.y
    else:
        p = initiate_particles(ssm, f, n, key(seed), ys[0], ts[0])
        for i in range(1, T):
            p = propagate_particle_filter(ssm, f, p, ys[i], ts[i], key(seed + i))
        vals, lws, tt, yy = p.value, p.log_weight, p.t, p.y
    for i in range(T):
        d = dict(x=vec(vals[i]), lw=vec(lws[i]), seent=fl(tt[i]), seeny=vec(yy[i]), t=fl(ts[i]), y=vec(ys[i]))
        if i == 0:
            rec('Start', blind=False, newhist={}, ess=fl(p.ess[0]), **d)
        else:
            rec('Ensemble', before=vec(vals[i - 1]), **d)


def parts(rec, model, margs, kind, seed, n=400):
    ssm, m, par = MODELS[model](*margs)
    f = filter_of(kind, par)
    f.startup(ssm)
    rec('Model', m=m, kind=kind, thr='0.5')
    rng = np.random.RandomState(seed)
    x, z = (jnp.array(rng.normal(size=(12, ssm.dim)) * 1.5, dtype=F32) for _ in range(2))
    y = jnp.array(rng.normal(size=ssm.dim_obs), dtype=F32)
    s, t = jnp.array(0.7), jnp.array(1.9)
    lw = [np.ravel(f.intermediate_log_weight(ssm, x[k], s, z[k], y, t))[0] for k in range(len(x))]
    keys = random.split(key(seed), n)
    rec('Parts', x=vec(x), z=vec(z), y=vec(y), s=fl(s), t=fl(t), prop=[fl(f.proposal_potential(ssm, x[k], s, z[k], y, t)) for k in range(len(x))],
        init=[fl(f.initial_potential(ssm, z[k], y, t)) for k in range(len(x))], lw=vec(np.array(lw)),
        draws=vec(jax.vmap(lambda k: f.proposal_sample(ssm, x[0], s, y, t, k))(keys)),
        inits=vec(jax.vmap(lambda k: f.initial_sample(ssm, y, t, k))(random.split(key(seed + 1), n))))


def unobserved(rec, model, margs, kind, n, seed):
    """Initial particles without an observation."""
    ssm, m, par = MODELS[model](*margs)
    f = filter_of(kind, par)
    rec('Model', m=m, kind=kind, thr='0.5')
    p = initiate_particles(ssm, f, n, key(seed), t=jnp.array(1.))
    start_event(rec, p, jnp.zeros(ssm.dim_obs), 1., blind=True)


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    out = []
    for j, c in enumerate(json.load(open(casefile))):
        if c['kind'] == 'optimal' or (not big and j % 4 != seed % 4):
            continue
        ys = c['ys'] + [1]
        thr = float(c['thr'])
        out.append((f'enumerated model {c["model"]} {c["kind"]} threshold {thr} observations {ys}', enumerated, c['model'], c['kind'], thr, ys, (2, 40, 300)[j % 3], seed + j))
    for rep in range(4 if big else 1):
        s = seed * 31 + rep * 17
        n = (60, 90, 25, 150)[rep]
        T = 5
        j = 0
        for model, margs in (('linear', (2, 1, 1 + rep)), ('linear', (1, 1, 2 + rep)), ('linear', (2, 3, 3 + rep)), ('drifting', (2, 2, 4 + rep)), ('sine', (2, 2, 5 + rep)), ('sine', (3, 1, 6 + rep)),
                             ('benchmark', ()), ('volatility', (2, 2, 7 + rep)), ('lattice', (3,))):
            for kind in ('bootstrap', 'guided', 'optimal'):
                if kind == 'optimal' and model != 'sine':
                    continue
                for gaps in ('unit', 'uneven'):
                    j += 1
                    thr = (0.5, 0., 1., 0.8, 1.5)[(j + rep) % 5]
                    base = f'{model} {margs} {kind} threshold {thr} gaps {gaps}'
                    if big or (j + seed) % 2 == 0:
                        out.append((f'steps {base} #{rep}', steps, model, margs, kind, thr, gaps, T, n, s + j, ('whole', 'alternating', 'whole', 'latest')[(j // 2) % 4]))
                    if big or (j + seed) % 2 == 1:
                        out.append((f'marginals {base} #{rep}', marginals, model, margs, kind, (0.5, 1., 0., 0.7)[(j // 2) % 4], gaps, T, n if kind != 'optimal' else 40, s + j, j % 4 == 3))
        out.append((f'filter used before on another model #{rep}', steps, 'sine', (2, 2, 8), 'optimal', 0.6, 'uneven', 4, n, s, 'whole', ('sine', (2, 2, 9))))
        out.append((f'bootstrap filter used before on another model #{rep}', steps, 'linear', (2, 2, 8), 'bootstrap', 0.6, 'uneven', 4, n, s, 'whole', ('linear', (2, 2, 9))))
        for model, kind, margs in (('linear', 'bootstrap', (2, 2, 21)), ('drifting', 'bootstrap', (2, 2, 22)), ('drifting', 'guided', (2, 1, 24)), ('linear', 'guided', (2, 2, 23))):
            out.append((f'posterior {model} {kind} #{rep}', posterior, model, margs, kind, ('uneven', 'unit')[rep % 2], 4, 5000, s, (0.5, 0.9)[rep % 2]))
        for model, margs, kind in (('sine', (2, 2, 11), 'optimal'), ('sine', (3, 1, 12), 'optimal'), ('linear', (2, 2, 13), 'bootstrap'), ('drifting', (2, 2, 14), 'guided')):
            out.append((f'large {model} {kind} #{rep}', steps, model, margs, kind, 0.7, 'uneven', 3, 1500, s))
        for model, margs in (('linear', (2, 2, 15)), ('lattice', (3,)), ('volatility', (2, 2, 16))):
            out.append((f'unobserved start {model} #{rep}', unobserved, model, margs, 'bootstrap', 400, s))
        for model, margs, way in (('linear', (2, 2, 31), 'run'), ('linear', (2, 1, 32), 'steps'), ('sine', (2, 3, 33), 'run')):
            out.append((f'ensemble Kalman {model} {way} #{rep}', ensemble, model, margs, 'uneven', 3, 2500, s, way))
        for model, margs, kind in (('linear', (2, 2, 41), 'bootstrap'), ('drifting', (2, 2, 42), 'bootstrap'), ('sine', (2, 2, 43), 'optimal'), ('sine', (3, 1, 44), 'optimal'), ('sine', (2, 2, 45), 'guided')):
            out.append((f'parts {model} {margs} {kind} #{rep}', parts, model, margs, kind, s))
        for n1 in (1, 2):
            out.append((f'{n1} particles #{rep}', steps, 'linear', (2, 2, 17), 'bootstrap', 0.8, 'uneven', 4, n1, s + n1))
    return out


def enumerated(rec, which, kind, thr, ys, n, seed):
    ssm, m, par = lattice(which)
    f = filter_of(kind, par)
    rec('Model', m=m, kind=kind, thr=fl(np.float32(thr)))
    y = jnp.array(ys, dtype=F32)[:, None]
    p = initiate_particles(ssm, f, n, key(seed), y[0], jnp.array(0.))
    start_event(rec, p, y[0], 0.)
    for i in range(1, len(ys)):
        if not np.any(np.isfinite(np.asarray(p.log_weight[-1]))):
            return          # every particle is impossible: nothing is promised
        p = propagate_particle_filter(ssm, f, p, y[i], float(i), key(seed + 50 * i), thr, resample_full=i % 2 == seed % 2)
        step_event(rec, 'Step' if i % 2 == seed % 2 else 'Latest', p, y[i], float(i))
