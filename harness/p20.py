"""Kernels, bandwidth rules and the kernel Stein discrepancy."""
import json
import random as pyrandom
import warnings

from kit import fl, vec, ints
from lib import *
from mocat import kernels as mk
from mocat.src.kernels import mean_bandwidth_update, median_bandwidth_update

F32 = np.float32
warnings.simplefilter('ignore')
NAMES = dict(h='bandwidth', p='precision', c='c', beta='beta')


def f32(x):
    return np.asarray(x, dtype=F32)


def value(q, v, d, kind, seed):
    """The v-th value of a parameter (0: the default); bandwidths are scalars (1) or vectors (2)."""
    rng = np.random.RandomState(seed * 7 + v)
    if q == 'h':
        return 1. if v == 0 else float(F32(0.6)) if v == 1 or kind == 'precond' else f32(rng.uniform(0.5, 2.5, size=d))
    if q == 'p':
        return f32(np.linalg.inv(np.asarray(spd(d, seed + v), dtype=float)) * (0.5 + v)) if v < 2 else f32(np.diag(rng.uniform(0.4, 2., size=d)))
    if q == 'c':
        return float(F32((1., 0.3, 4.)[v]))
    return float(F32((-0.5, -1.5, -0.1)[v]))


def as_arg(v):
    return v if isinstance(v, float) else jnp.array(v)


def build(kind, d, seed, how='set', **given):
    if kind == 'gaussian':
        return mk.Gaussian(**given)
    if kind == 'precond':
        return mk.PreconditionedGaussian(**{'precision': jnp.array(value('p', 0, d, kind, seed)), **given})
    return mk.IMQ(**given)


def record(kind, d, vals):
    h = vals['h']
    return dict(kind=kind, h=vec(np.broadcast_to(f32(h), (d,))), p=vec(vals['p']) if 'p' in vals else [], c=fl(vals.get('c', 1.)), beta=fl(vals.get('beta', 1.)))


PARAMS = dict(gaussian=('h',), precond=('h', 'p'), imq=('h', 'c', 'beta'))


def snapshot(k):
    return {n: np.array(v) for n, v in k.parameters.__dict__.items()}


def points(rec, k, kind, d, now, kw, seed, n=5):
    rng = np.random.RandomState(seed)
    xs, ys = f32(rng.normal(size=(n, d))), f32(rng.normal(size=(n, d)))
    ys[0] = xs[0]
    ys[1, 1:] = xs[1, 1:]
    before = snapshot(k)
    J = [(jnp.array(x), jnp.array(y)) for x, y in zip(xs, ys)]
    out = dict(val=[k(x, y, **kw) for x, y in J], swapped=[k(y, x, **kw) for x, y in J], gx=[k.grad_x(x, y, **kw) for x, y in J], gy=[k.grad_y(x, y, **kw) for x, y in J], gxy=[k.diag_grad_xy(x, y, **kw) for x, y in J])
    after = snapshot(k)
    kept = before.keys() == after.keys() and all(np.array_equal(before[a], after[a]) for a in before)
    rec('Points', k=record(kind, d, now), xs=vec(xs), ys=vec(ys), kept=bool(kept), **{a: vec(np.asarray([np.asarray(v) for v in b])) for a, b in out.items()})
    if kind != 'precond':   # whole ensembles at once
        rec('Batch', k=record(kind, d, now), xs=vec(xs), ys=vec(ys), val=vec(k(jnp.array(xs), jnp.array(ys), **kw)))
    many = jax.vmap(lambda a, b: k(a, b, **kw))(jnp.array(xs), jnp.array(ys))
    rec('Batch', k=record(kind, d, now), xs=vec(xs), ys=vec(ys), val=vec(many))


def histories(rec, kind, d, hists, seed):
    for i, hist in enumerate(hists):
        k = build(kind, d, seed)
        now = {q: value(q, 0, d, kind, seed) for q in PARAMS[kind]}
        for j, o in enumerate(hist):
            if o['op'] == 'set':
                now[o['q']] = value(o['q'], o['v'], d, kind, seed)
                setattr(k.parameters, NAMES[o['q']], as_arg(now[o['q']]))
                points(rec, k, kind, d, now, {}, seed + i, n=3)
            elif o['op'] == 'call':
                v = value(o['q'], o['v'], d, kind, seed)
                points(rec, k, kind, d, dict(now, **{o['q']: v}), {NAMES[o['q']]: as_arg(v)}, seed + i, n=3)
            else:
                points(rec, k, kind, d, now, {}, seed + i, n=3)


def constructed(rec, kind, d, vs, seed):
    now = {q: value(q, v, d, kind, seed) for q, v in zip(PARAMS[kind], vs)}
    k = build(kind, d, seed, **{NAMES[q]: as_arg(v) for q, v in now.items()})
    points(rec, k, kind, d, now, {}, seed, n=8)
    points(rec, build(kind, d, seed), kind, d, now, {NAMES[q]: as_arg(v) for q, v in now.items()}, seed + 1, n=4)


def rules(rec, n, d, scale, seed):
    xs = f32(np.random.RandomState(seed).normal(size=(n, d)) * scale)
    rec('Rule', xs=vec(xs), mean=fl(mean_bandwidth_update(jnp.array(xs))), median=fl(median_bandwidth_update(jnp.array(xs))))


def discrepancy(rec, kind, d, vs, n, weighted, form, how, target, seed):
    rng = np.random.RandomState(seed)
    now = {q: value(q, v, d, kind, seed) for q, v in zip(PARAMS[kind], vs)}
    kw = {NAMES[q]: as_arg(v) for q, v in now.items()}
    k = build(kind, d, seed, **(kw if how == 'built' else {}))
    xs = f32(rng.normal(size=(n, d)) + (0.7 if target == 'shifted' else 0.))
    gs = xs.copy() if target != 'random' else f32(rng.normal(size=(n, d)))
    lw = f32(rng.normal(size=n)) if weighted else None
    extra = dict(log_weight=jnp.array(lw)) if weighted else {}
    if how == 'call':
        extra.update(kw)
    if form == 'cdict':
        out = mocat.ksd(cdict(value=jnp.array(xs), grad_potential=jnp.array(gs)), k, **extra)
    elif form == 'both':   # gradients given explicitly take precedence
        out = mocat.ksd(cdict(value=jnp.array(xs), grad_potential=jnp.array(gs + 1)), k, grad_potential=jnp.array(gs), **extra)
    else:
        out = mocat.ksd(jnp.array(xs), k, grad_potential=jnp.array(gs), **extra)
    rec('Full', k=record(kind, d, now), xs=vec(xs), gs=vec(gs), w=vec(np.exp(lw.astype(float))) if weighted else ['1'] * n, out=fl(out))


def batched(rec, kind, d, vs, n, size, weighted, seed, draws=400):
    """Gradients all alike, so that every term is positive and the square root is defined."""
    rng = np.random.RandomState(seed)
    now = {q: value(q, v, d, kind, seed) for q, v in zip(PARAMS[kind], vs)}
    k = build(kind, d, seed, **{NAMES[q]: as_arg(v) for q, v in now.items()})
    xs = f32(rng.normal(size=(n, d)) * 0.7)
    gs = f32(np.full((n, d), 8.) + rng.normal(size=(n, d)))
    f = jax.jit(jax.vmap(lambda q: mocat.ksd(jnp.array(xs), k, grad_potential=jnp.array(gs), ensemble_batchsize=size, random_key=q)))
    rec('Mini', k=record(kind, d, now), xs=vec(xs), gs=vec(gs), w=['1'] * n, outs=vec(f(random.split(key(seed), draws))), whole=False)


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    cs = json.load(open(casefile))
    rng.shuffle(cs)
    out = []
    for i, kind in enumerate(PARAMS):
        hs = [c['hist'] for c in cs if c['kind'] == kind]
        hs = hs if big else hs[:24]
        for c in range(0, len(hs), 6):
            out.append((f'parameter changes {kind} {c}', histories, kind, (2, 3, 1)[(c // 6) % 3], hs[c:c + 6], seed + c))
    for rep in range(5 if big else 1):
        s = seed * 23 + rep
        for kind in PARAMS:
            for d in (1, 2, 4):
                for vs in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (2, 1, 0), (1, 0, 2)):
                    out.append((f'{kind} {d} {vs[:len(PARAMS[kind])]} #{rep}', constructed, kind, d, vs, s))
            for i, (vs, n, weighted, form, how, target) in enumerate((((0, 0, 0), 6, False, 'array', 'built', 'standard'), ((1, 1, 1), 9, True, 'cdict', 'call', 'shifted'),
                                                                     ((2, 2, 2), 5, False, 'both', 'built', 'random'), ((2, 0, 1), 12, True, 'array', 'call', 'random'))):
                d = (2, 3, 1, 2)[i]
                out.append((f'discrepancy {kind} {d} {vs} {n} {weighted} {form} {how} {target} #{rep}', discrepancy, kind, d, vs, n, weighted, form, how, target, s))
            for vs, n, size in (((0, 0, 0), 8, 3), ((1, 1, 1), 5, 12)):
                out.append((f'batched discrepancy {kind} {vs} {n} {size} #{rep}', batched, kind, 2, vs, n, size, False, s))
        for n, d, sc in ((2, 1, 1.), (5, 3, 2.), (12, 2, 0.1), (7, 4, 50.)):
            out.append((f'bandwidth rules {n} {d} #{rep}', rules, n, d, sc, s))
    return out
