"""Root finder, index and distance utilities."""
import json
import random as pyrandom
import warnings

from kit import fl, vec, ints
from lib import *
from mocat import utils as mu
try:
    from mocat.src.utils import kalman_gain   # not exported, used by every optimal proposal
except ImportError:
    kalman_gain = None

F32 = np.float32
warnings.simplefilter('ignore')


def f32(x):
    return np.asarray(x, dtype=F32)


FORMS = dict(
    table=lambda y: lambda x: jnp.interp(x, jnp.arange(len(y)) * 1., jnp.array(y, dtype=F32)),
    line=lambda y: lambda x: y[0] + y[1] * x,
    cubic=lambda y: lambda x: y[0] + y[1] * x ** 3,
    square=lambda y: lambda x: x * x - y[0],
    exp=lambda y: lambda x: y[1] * (jnp.exp(x) - y[0]),
    wave=lambda y: lambda x: jnp.sin(y[0] + y[1] * x),
    steep=lambda y: lambda x: y[1] * (1 / (1 + jnp.exp(-20 * x)) - y[0]))


def roots(rec, todo, depth):
    for form, y, bounds, tol in todo:
        y = [float(v) for v in f32(y)]
        f = FORMS[form](y)
        b = jnp.array(f32(bounds))
        size = max(abs(float(f(b[0]))), abs(float(f(b[1]))), 1.)
        tol = float(F32(tol))

        def state(limit):
            bb, vv, it = mu.bisect(f, b, limit, tol)
            return dict(b=vec(bb), v=vec(vv), it=int(it))
        most = 2000
        rec('Root', form=form, y=vec(f32(y)), bounds=vec(b), tol=fl(tol), size=fl(size), states=[state(i) for i in range(depth)], final=state(most), most=most)


def defaults(rec):
    """Default iteration limit and tolerance."""
    for form, y, bounds in (('square', [10.], [0., 100.]), ('square', [10.], [-10., 0.]), ('line', [1., -0.3], [0., 10.])):
        f = FORMS[form](y)
        b = jnp.array(f32(bounds))
        st = lambda out: dict(b=vec(out[0]), v=vec(out[1]), it=int(out[2]))
        for given in (b, list(bounds), [int(v) for v in bounds], tuple(bounds), jnp.array(bounds, dtype=int)):
            rec('Root', form=form, y=vec(f32(y)), bounds=vec(b), tol='1e-05', size=fl(100.), states=[st(mu.bisect(f, given, i)) for i in range(6)], final=st(mu.bisect(f, given)), most=1000)


def leave(rec, n):
    for r in range(n + 1):
        rec('Leave', n=n, r=r, out=ints(mu.leave_one_out_indices(n, r)))
        rec('Leave', n=n, r=r, out=ints(jax.jit(lambda i: mu.leave_one_out_indices(n, i))(jnp.array(r))))
    all_ = jax.vmap(lambda i: mu.leave_one_out_indices(n, i))(jnp.arange(n + 1))
    for r in range(n + 1):
        rec('Leave', n=n, r=r, out=ints(all_[r]))


def potentials(rec, d, seed):
    rng = np.random.RandomState(seed)
    full = np.asarray(spd(d, seed), dtype=float)
    diag = rng.uniform(0.3, 3., size=d)
    s = float(F32(rng.uniform(0.4, 2.)))
    prefull = f32(np.linalg.inv(full))
    root = f32(np.linalg.cholesky(prefull.astype(float)))
    other = f32(np.linalg.inv(np.linalg.cholesky(full)).T)     # another root of the same matrix
    det = float(np.linalg.det(prefull.astype(float)))
    one = F32(1.)
    options = [('none', {}, np.eye(d), True), ('scalar prec', dict(prec=s), np.eye(d) * s, True), ('scalar root', dict(sqrt_prec=s), np.eye(d) * s ** 2, True),
               ('0-d prec', dict(prec=jnp.array(F32(s))), np.eye(d) * s, True), ('0-d root', dict(sqrt_prec=jnp.array(F32(s))), np.eye(d) * s ** 2, True),
               ('diag prec', dict(prec=jnp.array(f32(diag))), np.diag(f32(diag)), True), ('diag root', dict(sqrt_prec=jnp.array(f32(np.sqrt(diag)))), np.diag(f32(diag)), True),
               ('full prec', dict(prec=jnp.array(prefull)), prefull, False), ('full root', dict(sqrt_prec=jnp.array(root)), prefull, False),
               ('other root', dict(sqrt_prec=jnp.array(other), det_prec=det), prefull, True), ('full prec det', dict(prec=jnp.array(prefull), det_prec=det), prefull, True),
               ('diag prec det', dict(prec=jnp.array(f32(diag)), det_prec=float(np.prod(f32(diag)))), np.diag(f32(diag)), True),
               ('diag root det', dict(sqrt_prec=jnp.array(f32(np.sqrt(diag))), det_prec=jnp.prod(jnp.array(f32(diag)))), np.diag(f32(diag)), True)]
    n = 4
    xs = f32(rng.normal(size=(n, d)) * 2)
    for name, kw, prec, const in options:
        for mname, mean, means in (('default', None, np.zeros((n, d))), ('scalar', 0.7, np.full((n, d), F32(0.7))), ('vector', f32(rng.normal(size=d)), None), ('matrix', f32(rng.normal(size=(n, d))), None)):
            if means is None:
                means = np.broadcast_to(mean, (n, d))
            arg = {} if mean is None else dict(mean=jnp.array(mean) if not isinstance(mean, float) else mean)
            out = np.asarray(mu.gaussian_potential(jnp.array(xs), **arg, **kw))
            common = dict(prec=vec(prec), means=vec(means), xs=vec(xs), constant=const)
            rec('Potential', out=vec(out), **common)
            if mname != 'matrix':
                rec('Potential', out=[fl(np.asarray(mu.gaussian_potential(jnp.array(x), **arg, **kw))) for x in xs], **common)
                cube = np.asarray(mu.gaussian_potential(jnp.array(xs.reshape(2, 2, d)), **arg, **kw))
                rec('Potential', out=vec(cube.reshape(-1)) if cube.shape == (2, 2) else [], **common)


class Holder:
    pass


def covariances(rec, d, seed):
    rng = np.random.RandomState(seed)
    for key_ in ('covariance', 'initial_covariance', 'prior_covariance'):
        h = Holder()
        p = key_.replace('covariance', 'precision')
        for kind in ('full', 'diag', 'scalar', 'full', 'diag'):
            cov = f32(np.asarray(spd(d, rng.randint(1000)))) if kind == 'full' else f32(rng.uniform(0.3, 2., size=d)) if kind == 'diag' else f32(1.7)
            mu.reset_covariance(h, key_, jnp.array(cov))
            wide = lambda a: np.asarray(a) if kind == 'full' else np.diag(np.broadcast_to(np.asarray(a), (d if kind == 'diag' else 1,)))
            rec('Covariance', cov=vec(wide(cov)), sqrt=vec(wide(getattr(h, key_ + '_sqrt'))), psqrt=vec(wide(getattr(h, p + '_sqrt'))), det=fl(getattr(h, p + '_det')))


def dimensions(rec):
    a, b, c = jnp.ones(3), jnp.ones((2, 5)), jnp.ones((4, 2, 7))
    for args, want in (((a,), 3), ((b, a), 5), ((1., a, b), 3), ((None, 2., b), 5), ((jnp.array(1.), c), 7), ((0.5, jnp.array(2.), c, a), 7)):
        rec('Dimension', out=int(mu.extract_dimension(*args)), want=want)
    for args in ((), (1.,), (None, jnp.array(1.), 2)):
        rec('Dimension', out=-1 if mu.extract_dimension(*args) is None else 0, want=-1)


def distances(rec, n, d, scale, seed):
    xs = f32(np.random.RandomState(seed).normal(size=(n, d)) * scale)
    rec('Distance', xs=vec(xs), out=vec(mu.l2_distance_matrix(jnp.array(xs))))


def tapers(rec, dim):
    for radius in (0.4, 1., 1.5, 2., 2.75, 4., 10., 2 * dim):
        rec('Taper', dim=dim, radius=fl(F32(radius)), out=vec(mu.gc_matrix(dim, float(F32(radius)))))


def gains(rec, d, dy, k, seed):
    """A covariance root with k columns."""
    rng = np.random.RandomState(seed)
    a, h, r = f32(rng.normal(size=(d, k))), f32(rng.normal(size=(dy, d))), f32(np.linalg.cholesky(np.asarray(spd(dy, seed), dtype=float)))
    c, rr = a.astype(float) @ a.T.astype(float), r.astype(float) @ r.T.astype(float)
    rec('Gain', c=vec(c), h=vec(h), r=vec(rr), out=vec(kalman_gain(jnp.array(a), jnp.array(h), jnp.array(r))))
    inv = f32(np.linalg.inv(h.astype(float) @ c @ h.T.astype(float) + rr))
    rec('Gain', c=vec(c), h=vec(h), r=vec(rr), out=vec(kalman_gain(jnp.array(a), jnp.array(h), jnp.array(r), inv_mat=jnp.array(inv))))


def stacks(rec):
    for start in (0, 3):
        for step in (1, 2):
            for top in (0, 1, 4, 9, 50):
                for limit in (1, 2, 5, 12):
                    want, x = [], start
                    while x < top and len(want) < limit:
                        x += step
                        want.append(x)
                    out = mu.while_loop_stacked(lambda s, e: s < top, lambda s, e: (s + step, e + 1), (start, 0), limit)
                    rec('Stack', out=ints(out), want=want)
                    a, b = mu.while_loop_stacked(lambda s, e: s[0] < top, lambda s, e: ((s[0] + step, s[1] * 2), e), ((start, 1), None), limit)
                    rec('Stack', out=ints(a) + ints(b), want=want + [2 ** (i + 1) for i in range(len(want))])


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    tables = json.load(open(casefile))
    rng.shuffle(tables)
    tables = tables if big else tables[:160]
    out = []
    for c in range(0, len(tables), 20):
        todo = []
        for i, t in enumerate(tables[c:c + 20]):
            b = (0., float(len(t) - 1)) if i % 3 else (0.3, len(t) - 1.25)
            todo.append(('table', t, b if i % 5 else b[::-1], (1e-5, 1e-2, 1e-4)[i % 3]))
        out.append((f'functions on a grid {c}', roots, todo, 9))
    smooth = [('line', (1., -0.3), (0., 10.)), ('line', (-2., 4.), (-5., 1.)), ('cubic', (-2., 1.), (-3., 5.)), ('cubic', (3., -0.5), (-2., 6.)), ('square', (10.,), (0., 100.)), ('square', (10.,), (-10., 0.)),
              ('square', (2.,), (2., 9.)), ('square', (-1.,), (-3., 4.)), ('exp', (2., 1.), (-1., 5.)), ('exp', (5., -3.), (0., 4.)), ('exp', (0.01, 100.), (-10., 3.)), ('wave', (0.3, 1.), (0.5, 4.)), ('wave', (-1., 2.), (0., 1.7)),
              ('wave', (0.2, 3.), (0., 3.)), ('steep', (0.5, 10.), (-2., 3.)), ('steep', (0.99, -5.), (-1., 2.)), ('steep', (0.01, 1000.), (-4., 1.)), ('line', (0., 1.), (0., 3.)), ('line', (-3., 1.), (0., 3.)), ('line', (1e-7, 1e-3), (1., 2.))]
    for i, (f, y, b) in enumerate(smooth):
        out.append((f'root of {f} {y} in {b}', roots, [(f, y, b, t) for t in ((1e-5, 1e-3, 0.3) if not big else (1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.3, 2.))] + [(f, y, b[::-1], 1e-3)], 16 if not big else 40))
    for i in range(10 if not big else 80):
        f, y, b = smooth[rng.randrange(len(smooth))]
        y = tuple(v * rng.uniform(0.5, 1.6) for v in y)
        b = (b[0] - rng.uniform(0, 1), b[1] + rng.uniform(0, 2))
        out.append((f'random root {i} {f}', roots, [(f, y, b, 10 ** rng.uniform(-5, -1))], 20))
    out.append(('defaults', defaults))
    for n in range(0, 8 if not big else 30):
        out.append((f'leave one out {n}', leave, n))
    reps = 1 if not big else 6
    for rep in range(reps):
        s = seed * 31 + rep
        for d in (1, 2, 3, 5):
            out.append((f'gaussian {d} #{rep}', potentials, d, s + d))
            out.append((f'covariance {d} #{rep}', covariances, d, s + d))
        for n, d, sc in ((1, 1, 1.), (2, 3, 10.), (7, 2, 0.1), (5, 6, 1.)):
            out.append((f'distances {n} {d} #{rep}', distances, n, d, sc, s))
        for d, dy, k in () if kalman_gain is None else ((1, 1, 1), (2, 1, 2), (3, 2, 3), (2, 3, 5), (4, 4, 2)):
            out.append((f'gain {d} {dy} {k} #{rep}', gains, d, dy, k, s))
    for dim in (1, 2, 3, 4, 5, 6, 7, 10) + ((15, 20) if big else ()):
        out.append((f'taper {dim}', tapers, dim))
    out.append(('dimensions', dimensions))
    out.append(('stacked loops', stacks))
    return out
