"""Ensemble Kalman runs on linear and cubic simulators."""
import json
import random as pyrandom

from kit import fl, vec, ints
from lib import *
from mocat import TemperedEKI, AdaptiveTemperedEKI


class Cubic(Scenario):
    """y = h x + cube (h x)^3 + noise with a Gaussian prior."""
    name = 'cubic'
    sampled = True

    def __init__(self, dx, dy, seed, cube=0., sd=0.5):
        rng = np.random.RandomState(seed)
        self.dim = dx
        q = np.linalg.qr(rng.normal(size=(max(dx, dy), max(dx, dy))))[0]
        self.h = jnp.array(q[:dy, :dx] * rng.uniform(0.8, 1.6, size=(dy, 1)) + 0.1, dtype='float32')
        self.cube = cube
        # correlated noise, so that a factor and its transpose differ
        self.mix = jnp.array(sd * np.tril(np.linspace(0.8, 1.5, dy)[:, None] * (0.8 + 0. * np.eye(dy)) + 0.3 * np.eye(dy)), dtype='float32')
        self.data = self.h @ jnp.linspace(1., 3., dx) + 0.3
        super().__init__()

    def prior_potential(self, x, random_key=None):
        return 0.5 * jnp.sum(jnp.square((x - 2.) / 1.2))

    def prior_sample(self, random_key):
        return 2. + 1.2 * random.normal(random_key, (self.dim,)) * jnp.linspace(0.7, 1.5, self.dim)

    def likelihood_sample(self, x, random_key):
        y = self.h @ x
        return y + self.cube * y ** 3 + self.mix @ random.normal(random_key, y.shape)


class BareCubic(Cubic):
    """No prior to sample from."""
    prior_sample = Scenario.prior_sample
    sampled = False


def model(s):
    return dict(prior=vec(np.square(1.2 * np.linspace(0.7, 1.5, s.dim)) if s.sampled else np.ones(s.dim)), centre=fl(2. if s.sampled else 0.), h=vec(s.h), cube=fl(np.float32(s.cube)), r=vec(np.asarray(s.mix, dtype=float) @ np.asarray(s.mix, dtype=float).T))


def execute(rec, scenario, s, n, cfg, seed, given=None, sims=None, kw=None):
    init = None
    if given is not None:
        init = cdict(value=jnp.array(given), **({} if sims is None else dict(simulated_data=jnp.array(sims))))
    chain = run(scenario, s, n, key(seed), initial_state=init, **(kw or {}))
    xs, ys, ts = (np.asarray(a) for a in (chain.value, chain.simulated_data, chain.temperature))
    rec('Start', cfg=cfg, data=vec(scenario.data), model=model(scenario), xs=vec(xs[0]), ys=vec(ys[0]), t=fl(ts[0]), given=[] if given is None else vec(given), sims=[] if sims is None else vec(sims))
    for k in range(1, len(ts)):
        rec('Step', xs=vec(xs[k]), ys=vec(ys[k]), t=fl(ts[k]))
    rec('End', n=n)


def config(rule, schedule=(), max_temperature=1., budget=10000, term=0., nugget=1e-5, fraction=0.9):
    return dict(rule=rule, schedule=vec(np.asarray(schedule, dtype='float32')) if len(schedule) else [], max=fl(np.float32(max_temperature)), budget=budget,
                term=fl(np.float32(term)), nugget=fl(np.float32(nugget)), fraction=fl(fraction))


def other_runs(s, n, seed):
    run(Cubic(3, 2, seed + 5, sd=0.4), s, n + 2, key(seed + 50))


def supplied(scenario, n, seed, what):
    rng = np.random.RandomState(seed + 3)
    if what == 'no':
        return None, None
    xs = (2. + rng.normal(size=(n, scenario.dim))).astype('float32')
    ys = (xs @ np.asarray(scenario.h).T * 0.8 + 0.5 * rng.normal(size=(n, len(scenario.data)))).astype('float32')
    return xs, ys if what == 'data' else None


def climbed(rec, dims, rungs, budget, top, how, what, n, cube, nugget, seed):
    """Schedules, possibly cut short by the iteration limit."""
    scenario = Cubic(*dims, seed, cube=cube)
    cut = rungs[-1] < top and len(rungs) == budget
    sched = [0.] + [r / 4 for r in rungs] + ([top / 4] if cut else [])
    arr = jnp.array(sched)
    more = {} if nugget == 1e-5 else dict(nugget=nugget)
    kw = {}
    if how == 'built':
        s = TemperedEKI(temperature_schedule=arr, **more)
    elif how == 'kwargs':
        s = TemperedEKI(temperature_schedule=jnp.array([0., 0.7, 1.]))
        kw = dict(temperature_schedule=arr, **more)
    elif how == 'class':
        s = TemperedEKI
        kw = dict(temperature_schedule=arr, **more)
    else:
        s = TemperedEKI(temperature_schedule=jnp.array([0., 0.5, 1.]), **more)
        if how == 'used':
            other_runs(s, n, seed)
        s.temperature_schedule = arr
    length = len(sched)
    if cut and how in ('built', 'assigned', 'used'):
        s.max_iter = length = budget
    given, sims = supplied(scenario, n, seed, what)
    execute(rec, scenario, s, n, config('schedule', sched, sched[-1], length, nugget=nugget), seed, given, sims, kw)


def ruled(rec, cls, dims, top, budget, term, fraction, how, what, n, cube, nugget, seed, own=False):
    """Default, own and adaptive rules."""
    scenario = Cubic(*dims, seed, cube=cube)
    settings = dict(max_temperature=top, max_iter=budget, term_std=term, nugget=nugget)
    if cls is AdaptiveTemperedEKI:
        settings['ess_threshold'] = fraction
    if own:
        settings['next_temperature'] = lambda state, extra: jnp.minimum(0.3 * extra.iter, top)
    kw = {}
    if how == 'built':
        s = cls(**settings)
    elif how == 'class':
        s, kw = cls, settings
    elif how == 'kwargs':
        s, kw = cls(**({'next_temperature': settings.pop('next_temperature')} if own else {})), settings
    else:
        s = cls(**({'next_temperature': settings.pop('next_temperature')} if own else {}))
        if how == 'used':
            s.max_iter = 3
            other_runs(s, n, seed)
        s.max_temperature, s.max_iter = top, budget
        s.parameters.term_std, s.parameters.nugget = term, nugget
        if cls is AdaptiveTemperedEKI:
            s.parameters.ess_threshold = fraction
    given, sims = supplied(scenario, n, seed, what)
    rule = 'own' if own else 'default' if cls is TemperedEKI else 'adaptive'
    execute(rec, scenario, s, n, config(rule, (), top, budget, term, nugget, fraction), seed, given, sims, kw)


def no_prior(rec, seed):
    scenario = BareCubic(2, 3, seed)
    execute(rec, scenario, TemperedEKI(temperature_schedule=jnp.array([0., 0.5, 1.])), 60, config('schedule', [0., 0.5, 1.], 1., 3), seed)


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    ladders = [c for c in json.load(open(casefile)) if c['rungs'][-1] == 6 or len(c['rungs']) == c['budget']]
    rng.shuffle(ladders)
    ladders = ladders if big else ladders[:24]
    dims = ((2, 2), (3, 2), (2, 3), (1, 1), (3, 1), (4, 3), (1, 2))
    hows = ('built', 'assigned', 'kwargs', 'used', 'class')
    out = []
    for i, c in enumerate(ladders):
        n = (80, 120, 8)[i % 3]
        nugget = 0.05 if n < 10 else (1e-5, 1e-5, 0.01)[(i // 3) % 3]
        out.append((f'ladder {c["rungs"]} budget {c["budget"]} #{i}', climbed, dims[i % 7], c['rungs'], c['budget'], 6, hows[i % 5], ('no', 'value', 'data')[(i // 2) % 3],
                    n, (0., 0.05)[i % 2], nugget, seed + i))
    for rep in range(6 if big else 1):
        for i, (top, budget, term) in enumerate(((1., 100, 0.), (0.5, 100, 0.), (1., 7, 0.), (1., 100, 0.7), (2.5, 90, 0.5))):
            j = i + 3 * rep
            out.append((f'default rule top {top} budget {budget} term {term} #{rep}', ruled, TemperedEKI, dims[j % 7], top, budget, term, 0., hows[j % 5], ('no', 'data', 'value')[j % 3],
                        40 if not big else 90, (0., 0.05)[j % 2], (1e-5, 0.01)[(j // 2) % 2], seed + 31 * rep + i))
        for i, (top, budget, term, fraction) in enumerate(((1., 100, 0., 0.9), (0.4, 100, 0., 0.5), (1., 2, 0., 0.8), (1., 100, 0.8, 0.95), (3., 100, 0., 0.3), (1., 100, 0.5, 0.7))):
            j = i + 2 * rep
            out.append((f'adaptive rule top {top} budget {budget} term {term} fraction {fraction} #{rep}', ruled, AdaptiveTemperedEKI, dims[j % 7], top, budget, term, fraction,
                        hows[j % 5], ('no', 'data', 'value')[j % 3], (60, 100)[i % 2], (0., 0.05)[j % 2], (1e-5, 0.01)[(j // 2) % 2], seed + 31 * rep + i))
        for i, top in enumerate((1., 0.7)):
            out.append((f'given rule top {top} #{rep}', ruled, TemperedEKI, dims[i + 1], top, 50, 0., 0., ('built', 'used')[i], 'no', 50, 0., 1e-5, seed + 7 * rep + i, True))
        out.append((f'no prior to sample #{rep}', no_prior, seed + rep))
    return out
