"""Plots of chains, of diagnostics and of two-dimensional scenarios: what ends up on the axes."""
import json
import random as pyrandom

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

from kit import fl, vec, ints
from lib import *
from mocat import twodim


def drawn(f, *args, own, **kw):
    """The axes drawn on: made by the function, or given by position or keyword."""
    if own == 'new':
        fig, ax = f(*args, **kw)
        return ax, isinstance(fig, plt.Figure) and ax in fig.axes
    fig, ax = plt.subplots()
    out = f(*args, ax=ax, **kw)
    return ax, out is ax


def form_of(x, form):
    x = jnp.asarray(np.asarray(x, dtype='float32'))
    if form == 'array':
        return x
    return cdict(value=x, potential=x if x.ndim == 1 else jnp.zeros(x.shape[0]))


def trace(rec, x, last, form='array', own='new'):
    kw = {} if last < 0 else dict(last_n=last)
    ax, same = drawn(mocat.trace_plot, form_of(x, form), own=own, **kw)
    line = ax.lines[-1]
    rec('Trace', x=vec(x), last=last, y=vec(np.asarray(line.get_ydata())), at=vec(np.asarray(line.get_xdata(), dtype=float)))
    rec('Axes', same=same)
    plt.close('all')


def hist(rec, x, bins, dim=None, density=True, form='array', own='new', default=False):
    kw = {} if default else dict(bins=bins, density=density)
    if dim is not None:
        kw['dim'] = dim
    ax, same = drawn(mocat.hist_1d_samples, form_of(x, form), own=own, **kw)
    x = np.asarray(x, dtype='float32')
    chains = x if x.ndim == 3 else [x] if x.ndim == 2 else None
    rec('Hist', x=vec(x) if x.ndim == 1 else [vec(c) for c in chains], dim=-1 if x.ndim == 1 else dim or 0, bins=bins, density=density,
        h=vec([p.get_height() for p in ax.patches]), left=vec([p.get_x() for p in ax.patches]))
    rec('Axes', same=same)
    plt.close('all')


def scatter(rec, x, dims, form='array', own='new'):
    kw = {} if dims is None else dict(dim1=dims[0], dim2=dims[1])
    ax, same = drawn(mocat.plot_2d_samples, form_of(x, form), own=own, **kw)
    x = np.asarray(x, dtype='float32')
    rec('Scatter', x=[vec(c) for c in (x if x.ndim == 3 else [x])], dims=list(dims or (0, 1)), points=vec(np.asarray(ax.collections[-1].get_offsets())))
    rec('Axes', same=same)
    plt.close('all')


def bars(rec, x, most, shown, form='array', own='new'):
    kw = {}
    if most is not None:
        kw['max_lag_eval'] = most
    if shown is not None:
        kw['max_lag_plot'] = shown
    ax, same = drawn(mocat.autocorrelation_plot, form_of(x, form), own=own, **kw)
    rec('Bars', x=vec(np.asarray(x, dtype='float32')), most=1000 if most is None else most, shown=100 if shown is None else shown, right=fl(ax.get_xlim()[1]),
        at=vec([p.get_x() + p.get_width() / 2 for p in ax.patches]), h=vec([p.get_height() for p in ax.patches]))
    rec('Axes', same=same)
    plt.close('all')


class Paper:
    """Stands in for axes, keeps what was drawn."""
    def __init__(self, xlim, ylim):
        self.lims = xlim, ylim
        self.kept = []

    def get_xlim(self):
        return self.lims[0]

    def get_ylim(self):
        return self.lims[1]

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **k: self.kept.append((name, a))


def grid(rec, mean, cov, xlim, ylim, potential, resolution):
    g = twodim.Gaussian(mean=jnp.array(mean), covariance=jnp.array(cov))
    g.plot_resolution = resolution
    p = Paper(xlim, ylim)
    g.plot(ax=p, **(dict(potential=True) if potential else {}))
    x, y, z = [a for n, a in p.kept if len(a) >= 3][-1][:3]
    x, y = (np.asarray(a)[0] if np.ndim(a) == 2 and i == 0 else np.asarray(a)[:, 0] if np.ndim(a) == 2 else np.asarray(a) for i, a in enumerate((x, y)))
    rec('Grid', mean=vec(mean), cov=vec(cov), xlim=vec(xlim), ylim=vec(ylim), potential=potential, x=vec(x), y=vec(y), z=vec(np.asarray(z)))


def limits(rec, mean, cov):
    g = twodim.Gaussian(mean=jnp.array(mean), covariance=jnp.array(cov))
    g.plot_resolution = 20
    fig, ax = g.plot()
    first = [float(v) for v in ax.get_xlim() + ax.get_ylim()]
    _, ax = g.plot()
    again = [float(v) for v in ax.get_xlim() + ax.get_ylim()]
    rec('Limits', mean=vec(mean), cov=vec(cov), xlim=vec(first[:2]), ylim=vec(first[2:]), kept=bool(np.allclose(first, again)))
    plt.close('all')


def moved_limits(rec):
    """Limits given to one plot are not those of the next; recalculated ones follow the scenario."""
    mean, cov = [1., -2.], [[4., 0.5], [0.5, 1.]]
    g = twodim.Gaussian(mean=jnp.array([30., 5.]), covariance=jnp.array(cov))
    g.plot_resolution = 20
    g.plot()
    g.mean = jnp.array(mean)
    fig, ax = g.plot(xlim=(-1., 2.), ylim=(0., 1.))
    ok = bool(np.allclose(ax.get_xlim() + ax.get_ylim(), (-1., 2., 0., 1.)))
    fig, ax = g.plot(recalc_axes=True)
    lim = [float(v) for v in ax.get_xlim() + ax.get_ylim()]
    rec('Limits', mean=vec(mean), cov=vec(cov), xlim=vec(lim[:2]), ylim=vec(lim[2:]), kept=ok)
    plt.close('all')


def small(rec, todo):
    for j, c in enumerate(todo):
        own, form = ('new', 'given')[j % 2], ('array', 'cdict')[j // 2 % 2]
        x = np.array(c['x'], dtype=float)
        if c['last'] != 0:
            trace(rec, x, c['last'], form, own)
        hist(rec, x, c['bins'], None, bool(j % 3), 'array', own)


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    todo = json.load(open(casefile))
    if not big:
        todo = rng.sample(todo, min(240, len(todo)))
    out = [(f'small chains {i}', small, todo[i:i + 40]) for i in range(0, len(todo), 40)]
    for rep in range(6 if big else 1):
        r = np.random.RandomState(seed * 10 + rep)
        one, two, three, wide = r.normal(size=137), r.normal(size=(90, 3)) * [1., 5., .1], r.normal(size=(4, 30, 3)) + [0., 9., -2.], r.normal(size=60) * 1e4
        for own in ('new', 'given'):
            for form in ('array', 'cdict'):
                tag = f'{own} {form} #{rep}'
                for last in (-1, 1, 50, 136, 137, 138, 250, 300):
                    out.append((f'trace last {last} {tag}', trace, one, last, form, own))
                for bins in (7, 50):
                    out.append((f'hist one bins {bins} {tag}', hist, one, bins, None, bins == 7, form, own))
                    for dim in (None, 0, 1, 2):
                        out.append((f'hist two dim {dim} bins {bins} {tag}', hist, two, bins, dim, bins == 50, form, own))
                        out.append((f'hist three dim {dim} bins {bins} {tag}', hist, three, bins, dim, bins == 7, form, own))
                out.append((f'hist default {tag}', hist, two, 50, None, True, form, own, True))
                for dims in (None, (0, 2), (2, 1), (1, 1)):
                    out.append((f'scatter two {dims} {tag}', scatter, two, dims, form, own))
                    out.append((f'scatter three {dims} {tag}', scatter, three, dims, form, own))
                for most, shown in ((None, None), (20, 10), (20, 50), (400, 30)):
                    out.append((f'bars {most} {shown} {tag}', bars, one, most, shown, form, own))
        for j, (mean, cov) in enumerate((([0., 0.], [[1., 0.], [0., 1.]]), ([2., -3.], [[2., 0.7], [0.7, 0.5]]), ([40., 1.], [[9., 2.], [2., 4.]]), ([-5., 60.], [[400., 0.], [0., 30.]]),
                                         ([8., 8.], [[3., -1.], [-1., 3.]]), ([0., 0.], [[0.6, 0.], [0., 900.]]))):
            out.append((f'limits {j} #{rep}', limits, mean, cov))
            out.append((f'density {j} #{rep}', grid, mean, cov, (mean[0] - 2., mean[0] + 1.), (mean[1] - 1., mean[1] + 3.), False, 9))
            out.append((f'potential {j} #{rep}', grid, mean, cov, (-3., 1.), (-1., 4.), True, 6))
        out.append((f'limits of a changed scenario #{rep}', moved_limits))
    return out
