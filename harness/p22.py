"""Stein variational runs with every kernel, optimiser and batch size."""
import json
import random as pyrandom
import warnings

from kit import fl, vec, ints
from lib import *
from mocat import SVGD, kernels as mk
from jax.example_libraries import optimizers as jopt
from p20 import value, build as build_kernel, record as kernel_record, PARAMS, NAMES, as_arg
from smcrun import Banana

warnings.simplefilter('ignore')


class Skewed(PriorGaussian):
    """A prior that is not standard."""
    def prior_sample(self, random_key):
        return jnp.linspace(2., 3., self.dim) + 0.4 * random.normal(random_key, (self.dim,))


def scenario_of(where, d, seed):
    if where == 'gauss':
        s = PriorGaussian(mean=jnp.arange(d) * 0.5 + 0.25, covariance=spd(d, seed))
    elif where == 'skewed':
        s = Skewed(mean=jnp.arange(d) * 0.5 + 0.25, covariance=spd(d, seed))
    elif where == 'cool':
        s = PriorGaussian(mean=jnp.arange(d) * 0.5 + 0.25, covariance=spd(d, seed))
        s.temperature = 0.4
    elif where == 'plain':
        s = Gaussian(mean=jnp.arange(d) * 0.5 + 0.25, covariance=spd(d, seed))
    else:
        s = Banana()
    return s


OPTIMISERS = dict(sgd=(jopt.sgd, (), {}), momentum=(jopt.momentum, ('mass',), {}), adagrad=(jopt.adagrad, ('momentum',), dict(momentum=0.9)),
                  adam=(jopt.adam, ('b1', 'b2'), dict(b1=0.9, b2=0.999)))


def execute(rec, scenario, s, n, cfg, seed, given, prior, kw):
    init = None if given is None else cdict(value=jnp.array(given))
    chain = run(scenario, s, n, key(seed), initial_state=init, **kw)
    xs = np.asarray(chain.value)
    f = jax.jit(jax.vmap(jax.vmap(lambda x: jax.value_and_grad(lambda z: scenario.prior_potential(z, key(0)) + scenario.temperature * scenario.likelihood_potential(z, key(0)))(x))))
    pots, grads = (np.asarray(a) for a in f(chain.value))
    for k in range(len(xs)):
        h = chain.kernel_params.bandwidth[k] if hasattr(chain, 'kernel_params') and hasattr(chain.kernel_params, 'bandwidth') else None
        what = dict(xs=vec(xs[k]), pot=vec(chain.potential[k]), gs=vec(chain.grad_potential[k]), h='none' if h is None or np.ndim(h) else fl(h), wantpot=vec(pots[k]), wantgs=vec(grads[k]))
        if k == 0:
            rec('Start', cfg=cfg, given=[] if given is None else vec(given), prior=prior, **what)
        else:
            rec('Step', **what)
    rec('End', n=n)
    return xs


def descend(rec, kind, adapt, opt, par, eta, where, d, n, batch, budget, how, vs, params_given, start, seed):
    scenario = scenario_of(where, d, seed)
    d = scenario.dim
    now = {q: value(q, v, d, kind, seed) for q, v in zip(PARAMS[kind], vs)}
    make, names, defaults = OPTIMISERS[opt]
    given_par = {} if par is None else dict(zip(names, par))
    effective = {**defaults, **given_par}
    ps = [effective[q] for q in names] + [0., 0.]
    schedule = (lambda i: eta / (1 + 0.2 * i)) if how == 'schedule' else eta
    etas = [fl(eta / (1 + 0.2 * i) if how == 'schedule' else eta) for i in range(1, budget + 1)]
    settings = dict(stepsize=schedule, max_iter=budget)
    if batch or how == 'assigned':
        settings['ensemble_batchsize'] = batch or n
    if opt != 'adagrad' or how == 'kwargs':
        settings['optimiser'] = make
    if not adapt:
        if params_given:
            settings.update(kernel=build_kernel(kind, d, seed), kernel_params=cdict(**{NAMES[q]: as_arg(v) for q, v in now.items()}))
        else:
            settings.update(kernel=build_kernel(kind, d, seed, **{NAMES[q]: as_arg(v) for q, v in now.items()}))
    kw = {}
    if how == 'class':
        s, kw = SVGD, {**settings, **given_par}
    elif how == 'kwargs':
        late = {q: settings.pop(q) for q in ('max_iter', 'ensemble_batchsize') if q in settings}
        s = SVGD(**{**settings, 'stepsize': 7.}, **given_par)
        kw = {**late, 'stepsize': schedule}
    elif how == 'assigned':
        s = SVGD(stepsize=3., **{q: settings[q] for q in ('kernel',) if q in settings}, **given_par)
        s.parameters.stepsize, s.max_iter = schedule, budget
        s.parameters.ensemble_batchsize = settings['ensemble_batchsize']
        if 'optimiser' in settings:
            s.optimiser = make
        if 'kernel_params' in settings:
            s.parameters.kernel_params = settings['kernel_params']
    else:
        s = SVGD(**settings, **given_par)
        if how == 'used':
            run(PriorGaussian(mean=jnp.zeros(d), covariance=spd(d, seed + 1)), s, n + (0 if batch else 3), key(seed + 5))
    given = None
    prior = []
    if start == 'given' or (where == 'banana' and start != 'sampled'):
        given = (np.random.RandomState(seed).normal(size=(n, d)) * (0.7 if where == 'banana' else (1., 5.)[seed % 2])).astype('float32')
    elif where == 'skewed':
        prior = [vec(np.linspace(2., 3., d)), vec(np.full(d, 0.16))]
    elif where == 'plain':
        prior = [vec(np.zeros(d)), vec(np.ones(d))]
    elif where in ('gauss', 'cool'):
        prior = [vec(np.zeros(d)), vec(np.full(d, 2.25))]
    cfg = dict(k=kernel_record(kind, d, now), adapt=adapt, o=dict(kind=opt, p1=fl(ps[0]), p2=fl(ps[1])), etas=etas, batch=batch if batch and batch != n else 0, budget=budget)
    execute(rec, scenario, s, n, cfg, seed, given, prior, kw)


def permuted(rec, kind, adapt, opt, d, n, seed):
    scenario = scenario_of('gauss', d, seed)
    now = {q: value(q, 1, d, kind, seed) for q in PARAMS[kind]}
    start = np.random.RandomState(seed).normal(size=(n, d)).astype('float32')
    p = np.random.RandomState(seed + 1).permutation(n)
    ends = []
    for v in (start, start[p]):
        settings = {} if adapt else dict(kernel=build_kernel(kind, d, seed, **{NAMES[q]: as_arg(w) for q, w in now.items()}))
        s = SVGD(stepsize=0.2, max_iter=12, optimiser=OPTIMISERS[opt][0], **({'mass': 0.4} if opt == 'momentum' else {}), **settings)
        ends.append(np.asarray(run(scenario, s, n, key(seed), initial_state=cdict(value=jnp.array(v))).value[-1]))
    rec('Permuted', a=vec(ends[0]), b=vec(ends[1]), p=ints(p + 1))


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    configs = [c for c in json.load(open(casefile)) if not (c['adapt'] and c['kind'] != 'gaussian')]
    rng.shuffle(configs)
    hows = ('built', 'kwargs', 'assigned', 'used', 'class', 'schedule')
    pars = dict(sgd=(None, None), momentum=((0.5,), (0.2,)), adagrad=(None, (0.3,)), adam=(None, (0.7, 0.9)))
    out = []
    for rep in range(6 if big else 1):
        for i, c in enumerate(configs):
            j = i + rep
            n = {2: (2, 5, 8)[j % 3], 3: (12, 40, 7)[j % 3]}[c['size']]
            d = (2, 1, 3)[j % 3]
            where = ('gauss', 'skewed', 'cool', 'banana', 'plain')[(j // 2) % 5]
            eta = {'sgd': 0.15, 'momentum': 0.1, 'adagrad': 0.4, 'adam': 0.1}[c['opt']]
            if where == 'banana':
                eta *= 0.1
            vs = ((1, 1, 1), (2, 0, 1), (0, 0, 0), (2, 2, 2))[j % 4]
            out.append((f'{c["kind"]} adapt {c["adapt"]} {c["opt"]} {c["size"]} #{i} #{rep}', descend, c['kind'], c['adapt'], c['opt'], pars[c['opt']][j % 2], eta, where, d, n, 0, 6,
                        hows[j % 6], vs[:len(PARAMS[c['kind']])], bool((j // 3) % 2), ('given', 'sampled')[(j // 2) % 2], seed + 13 * rep + i))
        for i, (kind, adapt, n, batch) in enumerate((('gaussian', True, 9, 1), ('imq', False, 12, 4), ('precond', False, 10, 1), ('gaussian', False, 8, 12), ('gaussian', True, 20, 5), ('imq', False, 4, 1))):
            j = i + rep
            out.append((f'batches {kind} adapt {adapt} {n} {batch} #{rep}', descend, kind, adapt, 'sgd', None, 0.1, ('gauss', 'cool')[j % 2], (2, 3)[j % 2], n, batch, 30 if n > 4 else 150,
                        ('built', 'kwargs', 'used', 'class')[j % 4], (1, 1, 1)[:len(PARAMS[kind])], False, 'given', seed + 13 * rep + i))
        for i, (kind, adapt, opt, d, n) in enumerate((('gaussian', True, 'adagrad', 2, 9), ('imq', False, 'momentum', 3, 6), ('precond', False, 'sgd', 2, 12))):
            out.append((f'permuted {kind} {opt} #{rep}', permuted, kind, adapt, opt, d, n, seed + rep))
    return out
