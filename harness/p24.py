"""Histories of runs and changes of settings on samplers, filters and scenarios of every kind."""
import json
import os
import random as pyrandom
import subprocess
import sys

from kit import fl, vec, ints
from lib import *
from mocat import (RandomWalk, Underdamped, QNUnderdamped, Metropolis, RMMetropolis, Uncorrected, MetropolisedSMCSampler, RMMetropolisedSMCSampler, SVGD,
                   TemperedEKI, AdaptiveTemperedEKI, kernels)
from mocat.abc import VanillaABC, RandomWalkABC, MetropolisedABCSMCSampler
from mocat.ssm import backward_simulation, propagate_particle_filter, propagate_particle_smoother, initiate_particles
from ssmrun import linear, sine, BootstrapFilter, OptimalNonLinearGaussianParticleFilter, EnsembleKalmanFilter, run_particle_filter_for_marginals
from p21 import Cubic
try:
    from mocat.src.transport.svgd import adapt_bandwidth_mean
except ImportError:
    adapt_bandwidth_mean = None


def digest(chain):
    """Shapes and contents of everything recorded, in a few dozen numbers."""
    out = []
    for k in sorted(chain.keys()):
        v = getattr(chain, k)
        if k in ('time', 'summary', 'memory', 'kernel_params') or not hasattr(v, 'shape'):
            continue
        a = np.asarray(v, dtype=float)
        out += [float(s) for s in a.shape]
        f = a.ravel()
        take = np.unique(np.linspace(0, f.size - 1, 10).astype(int)) if f.size else []
        out += [float(x) for x in f[take]]
    return [fl(np.float32(x)) for x in out]


class Family:
    """A sampler with settings a and b (0 or 1), a scenario with a setting m (0 or 1), another scenario (m = 2)."""
    n = (12, 17)
    heavy = False
    actions = ('run', 'other args', 'other model', 'set a', 'set b', 'set m', 'run with a')

    def build(self, a, b):
        raise NotImplementedError

    def model(self, m):
        raise NotImplementedError

    def other(self):
        raise NotImplementedError

    def start(self, scenario, n):
        return None

    def go(self, s, scenario, args, **kw):
        n = self.n[args]
        return digest(run(scenario, s, n, key(11 + args), initial_state=self.start(scenario, n) if args else None, **kw))


def picked(values):
    return staticmethod(lambda i: values[i])


class Walk(Family):
    steps = picked((0.5, 0.9))

    def corr(self, b):
        return (Metropolis, RMMetropolis)[b]()

    def build(self, a, b):
        s = RandomWalk(stepsize=self.steps(a))
        s.correction = self.corr(b)
        return s

    def kw_a(self, a):
        return dict(stepsize=self.steps(a))

    def set_a(self, s, a):
        s.parameters.stepsize = self.steps(a)

    def set_b(self, s, b):
        s.correction = self.corr(b)

    def model(self, m):
        return Gaussian(mean=jnp.array([1., -2.]) * m, covariance=spd(2, 1))

    def set_m(self, g, m):
        g.mean = jnp.array([1., -2.]) * m

    def other(self):
        return Gaussian(mean=jnp.array([1., -2., 0.5]), covariance=spd(3, 1))

    def start(self, scenario, n):
        return cdict(value=jnp.arange(scenario.dim) * 0.5)


class Untuned(Walk):
    """The stepsize is left to the correction, which depends on the dimension."""
    steps = picked((1., 0.2))
    targets = picked((0.234, 0.8))

    def build(self, a, b):
        s = RandomWalk()
        s.correction = RMMetropolis(rm_stepsize_scale=self.steps(a))
        s.tuning.target = self.targets(b)
        return s

    def kw_a(self, a):
        return dict(rm_stepsize_scale=self.steps(a))

    def set_a(self, s, a):
        s.correction.rm_stepsize_scale = self.steps(a)

    def set_b(self, s, b):
        s.tuning.target = self.targets(b)


class Leap(Walk):
    """Covariances change; leapfrog steps change."""
    steps = picked((1, 3))

    def build(self, a, b):
        return Underdamped(stepsize=0.4, leapfrog_steps=self.steps(a), friction=(1., 0.3)[b])

    def kw_a(self, a):
        return dict(leapfrog_steps=self.steps(a))

    def set_a(self, s, a):
        s.parameters.leapfrog_steps = self.steps(a)

    def set_b(self, s, b):
        s.parameters.friction = (1., 0.3)[b]

    def model(self, m):
        return Gaussian(mean=jnp.ones(2), covariance=spd(2, 3 + m, (1., 0.6)[m]))

    def set_m(self, g, m):
        g.covariance = spd(2, 3 + m, (1., 0.6)[m])


class Tempered(Leap):
    """The temperature of a scenario with a prior changes, and the corrections are shared objects."""
    steps = picked((0.3, 0.5))
    corrections = (Metropolis(), RMMetropolis())

    def corr(self, b):
        return self.corrections[b]

    def build(self, a, b):
        s = Underdamped(stepsize=self.steps(a), leapfrog_steps=2)
        s.correction = self.corr(b)
        return s

    def kw_a(self, a):
        return dict(stepsize=self.steps(a))

    def set_a(self, s, a):
        s.parameters.stepsize = self.steps(a)

    def set_b(self, s, b):
        s.correction = self.corr(b)

    def model(self, m):
        g = prior_gaussian(2, 3)
        g.temperature = (1., 0.4)[m]
        return g

    def set_m(self, g, m):
        g.temperature = (1., 0.4)[m]

    def other(self):
        return prior_gaussian(3, 4)


class Quasi(Walk):
    """Mixtures change; the sampler has a memory and may sort it."""
    heavy = True
    n = (14, 9)
    steps = picked((0.35, 0.6))

    def build(self, a, b):
        return QNUnderdamped(stepsize=self.steps(a), leapfrog_steps=2, m=4, sort_bfgs=bool(b), pos_def_r=0.4)

    def set_b(self, s, b):
        s.sort_bfgs = bool(b)

    def model(self, m):
        return GaussianMixture(means=jnp.array([[0., 1.], [2., -1.]]) + m, covariances=spd(2, 5), weights=jnp.array([0.4, 0.6]))

    def set_m(self, g, m):
        g.means = jnp.array([[0., 1.], [2., -1.]]) + m

    def other(self):
        return DoubleWell(dim=3)


class Quasi2(Quasi):
    """Weights change; regularisation and initial diagonal change."""
    steps = picked((0.3, 0.8))

    def build(self, a, b):
        return QNUnderdamped(stepsize=0.5, leapfrog_steps=1, m=5, pos_def_r=self.steps(a), init_hessian_sqrt_diag=(1., 1.7)[b])

    def kw_a(self, a):
        return dict(pos_def_r=self.steps(a))

    def set_a(self, s, a):
        s.parameters.pos_def_r = self.steps(a)

    def set_b(self, s, b):
        s.parameters.init_hessian_sqrt_diag = (1., 1.7)[b]

    def model(self, m):
        return GaussianMixture(means=jnp.array([[0., 1.], [2., -1.]]), covariances=jnp.stack([spd(2, 5), 0.5 * spd(2, 6)]), weights=jnp.array(((0.4, 0.6), (0.9, 0.1))[m]))

    def set_m(self, g, m):
        g.weights = jnp.array(((0.4, 0.6), (0.9, 0.1))[m])


class Toy(Walk):
    """A parameter of a toy scenario changes."""
    steps = picked((0.02, 0.3))

    def build(self, a, b):
        return Underdamped(stepsize=self.steps(a), leapfrog_steps=(1, 2)[b])

    def set_b(self, s, b):
        s.parameters.leapfrog_steps = (1, 2)[b]

    def model(self, m):
        return Rastrigin(dim=2, a=(1., 3.)[m])

    def set_m(self, g, m):
        g.a = (1., 3.)[m]

    def other(self):
        return DoubleWell(dim=2)

    def go(self, s, scenario, args, **kw):
        n = self.n[args]
        return digest(run(scenario, s, n, key(11 + args), initial_state=cdict(value=jnp.array([0.4, -0.7]) + 0.2 * args), **kw))


class Ladder(Walk):
    """Schedules come and go; the inner sampler changes."""
    heavy = True
    n = (20, 31)
    schedules = picked((None, jnp.array([0.2, 1.])))

    def build(self, a, b):
        return MetropolisedSMCSampler(RandomWalk(stepsize=(0.5, 1.1)[b]), temperature_schedule=self.schedules(a), mcmc_steps=2)

    def kw_a(self, a):
        return dict(temperature_schedule=self.schedules(a))

    def set_a(self, s, a):
        s.temperature_schedule = self.schedules(a)

    def set_b(self, s, b):
        s.mcmc_sampler.parameters.stepsize = (0.5, 1.1)[b]

    def model(self, m):
        return prior_gaussian(2, 3, mean=jnp.array([1., 2.]) * (1 - 2 * m))

    def set_m(self, g, m):
        g.mean = jnp.array([1., 2.]) * (1 - 2 * m)

    def other(self):
        return prior_gaussian(3, 4)

    def start(self, scenario, n):
        return cdict(value=jax.vmap(scenario.prior_sample)(random.split(key(3), n)))


class AdaptiveLadder(Ladder):
    """Number of moves and resampling threshold change; gradients in the inner sampler."""
    def build(self, a, b):
        return RMMetropolisedSMCSampler(Underdamped(stepsize=0.6, leapfrog_steps=2), mcmc_steps=(1, 3)[a], ess_threshold_retain=(0.9, 0.6)[b])

    def kw_a(self, a):
        return dict(mcmc_steps=(1, 3)[a])

    def set_a(self, s, a):
        s.parameters.mcmc_steps = (1, 3)[a]

    def set_b(self, s, b):
        s.parameters.ess_threshold_retain = (0.9, 0.6)[b]


class Shared(Ladder):
    """One inner sampler serves two ensemble samplers and a chain."""
    def build(self, a, b):
        inner = RandomWalk(stepsize=(0.5, 1.1)[a])
        s = MetropolisedSMCSampler(inner, mcmc_steps=1, ess_threshold_resample=(0.5, 0.95)[b], temperature_schedule=jnp.array([0.1, 0.4, 1.]))
        s.own = inner
        return s

    def kw_a(self, a):
        raise NotImplementedError

    actions = ('run', 'other args', 'other model', 'set a', 'set b', 'set m')

    def set_a(self, s, a):
        s.own.parameters.stepsize = (0.5, 1.1)[a]

    def set_b(self, s, b):
        s.parameters.ess_threshold_resample = (0.5, 0.95)[b]

    def go(self, s, scenario, args, **kw):
        if args:      # a chain of the inner sampler on the same scenario
            chain = digest(run(scenario, s.own, 15, key(12), initial_state=cdict(value=jnp.ones(scenario.dim))))
            return chain + super().go(s, scenario, args, **kw)
        return super().go(s, scenario, args, **kw)


class Inversion(Walk):
    """Schedules come and go; data change."""
    heavy = True
    n = (20, 31)
    schedules = picked((jnp.array([0., 0.3, 1.]), None))

    def build(self, a, b):
        return TemperedEKI(temperature_schedule=self.schedules(a), nugget=(1e-5, 0.3)[b])

    def kw_a(self, a):
        return dict(temperature_schedule=self.schedules(a))

    def set_a(self, s, a):
        s.temperature_schedule = self.schedules(a)

    def set_b(self, s, b):
        s.parameters.nugget = (1e-5, 0.3)[b]

    def model(self, m):
        c = Cubic(2, 3, 1, 0.02)
        if m:
            c.data = c.data - 1.
        return c

    def set_m(self, g, m):
        g.data = Cubic(2, 3, 1, 0.02).data - m

    def other(self):
        return Cubic(3, 2, 4, 0.)

    def start(self, scenario, n):
        return cdict(value=jax.vmap(scenario.prior_sample)(random.split(key(3), n)))


class Constrained(Cubic):
    def constrain(self, x):
        return jnp.exp(0.3 * x)


class AdaptiveInversion(Inversion):
    """Thresholds and termination change; constants of the simulator change."""
    def build(self, a, b):
        return AdaptiveTemperedEKI(ess_threshold=(0.9, 0.4)[a], term_std=(0., 0.8)[b])

    def kw_a(self, a):
        return dict(ess_threshold=(0.9, 0.4)[a])

    def set_a(self, s, a):
        s.parameters.ess_threshold = (0.9, 0.4)[a]

    def set_b(self, s, b):
        s.parameters.term_std = (0., 0.8)[b]

    def model(self, m):
        c = Cubic(2, 3, 1, 0.02)
        c.cube = (0.02, 0.05)[m]
        return c

    def other(self):
        return Constrained(3, 2, 4, 0.)

    def set_m(self, g, m):
        g.cube = (0.02, 0.05)[m]


class Stein(Walk):
    """Stepsizes and batches change."""
    n = (8, 11)
    steps = picked((0.1, 0.3))

    def build(self, a, b):
        return SVGD(stepsize=self.steps(a), max_iter=6, ensemble_batchsize=(None, 5)[b])

    def set_b(self, s, b):
        s.parameters.ensemble_batchsize = (None, 5)[b]

    def start(self, scenario, n):
        return cdict(value=random.normal(key(5), (n, scenario.dim)))


class SteinKernel(Stein):
    """One kernel object is used with and without adaptation."""
    kernel = None
    steps = picked((3, 6))

    def build(self, a, b):
        if self.kernel is None:
            type(self).kernel = kernels.Gaussian(bandwidth=0.8)
        s = SVGD(stepsize=0.2, max_iter=self.steps(a), kernel=self.kernel)
        self.set_b(s, b)
        return s

    def kw_a(self, a):
        return dict(max_iter=self.steps(a))

    def set_a(self, s, a):
        s.max_iter = self.steps(a)

    def set_b(self, s, b):
        if b:
            s.adapt = adapt_bandwidth_mean
        else:
            s.__dict__.pop('adapt', None)


class Rejection(Walk):
    """Simulator-based importance sampling: thresholds and data change."""
    n = (40, 25)
    steps = picked((1.2, 2.5))

    def build(self, a, b):
        s = VanillaABC(threshold=self.steps(a))
        return s

    actions = ('run', 'other args', 'other model', 'set a', 'set m', 'run with a')

    def kw_a(self, a):
        return dict(threshold=self.steps(a))

    def set_a(self, s, a):
        s.parameters.threshold = self.steps(a)

    def model(self, m):
        c = LinearABC(2, 3, 0.5, 1)
        if m:
            c.data = c.data + 1.
        return c

    def set_m(self, g, m):
        g.data = LinearABC(2, 3, 0.5, 1).data + m

    def other(self):
        return LinearABC(3, 2, 0.3, 2)

    def go(self, s, scenario, args, **kw):
        return digest(run(scenario, s, self.n[args], key(11 + args), **kw))


class Quantile(Rejection):
    """The threshold is the quantile of the run's own distances."""
    steps = picked((0.2, 0.6))

    def build(self, a, b):
        return VanillaABC(acceptance_rate=self.steps(a))

    def kw_a(self, a):
        return dict(acceptance_rate=self.steps(a))

    def set_a(self, s, a):
        s.parameters.acceptance_rate = self.steps(a)


class Simulated(Rejection):
    """Simulator-based chains."""
    actions = Walk.actions
    n = (30, 22)

    def build(self, a, b):
        s = RandomWalkABC(threshold=self.steps(a), stepsize=0.6)
        s.correction = (Metropolis, RMMetropolis)[b]()
        return s

    def set_b(self, s, b):
        s.correction = (Metropolis, RMMetropolis)[b]()


class Shrinking(Rejection):
    """Simulator-based ensembles."""
    actions = Walk.actions
    heavy = True
    n = (24, 33)
    schedules = picked((jnp.array([4., 2.5, 1.8]), None))

    def build(self, a, b):
        return MetropolisedABCSMCSampler(RandomWalkABC(stepsize=0.5), threshold_schedule=self.schedules(a), mcmc_steps=(1, 2)[b], termination_alpha=0.3)

    def kw_a(self, a):
        return dict(threshold_schedule=self.schedules(a))

    def set_a(self, s, a):
        s.threshold_schedule = self.schedules(a)

    def set_b(self, s, b):
        s.parameters.mcmc_steps = (1, 2)[b]


class Filter(Family):
    """Particle filters and the smoothers that use them."""
    actions = ('run', 'other args', 'other model', 'set a', 'set b')
    heavy = True
    filter = staticmethod(BootstrapFilter)
    models = staticmethod(linear)
    obs = 2

    def build(self, a, b):
        return dict(pf=self.filter(), ess=(0., 1.01)[a], smoother=b)

    def set_a(self, s, a):
        s['ess'] = (0., 1.01)[a]

    def set_b(self, s, b):
        s['smoother'] = b

    def model(self, m):
        return self.models(2, self.obs, 7)[0]

    def other(self):
        return self.models(3, self.obs, 8)[0]

    def go(self, s, model, args, **kw):
        T = (4, 5)[args]
        ys = random.normal(key(31 + args), (T, self.obs)) * 1.5
        ts = jnp.arange(T) * 1.
        p = run_particle_filter_for_marginals(model, s['pf'], ys, ts, key(40 + args), (15, 21)[args], ess_threshold=s['ess'])
        out = [digest(p)]
        q = initiate_particles(model, s['pf'], 9, key(50 + args), ys[0], ts[0])
        for i in range(1, 3):
            q = propagate_particle_filter(model, s['pf'], q, ys[i], ts[i], key(51 + i), ess_threshold=s['ess'])
        out.append(digest(q))
        out.append(digest(backward_simulation(model, p, key(60), 8 + args)))
        if s['smoother']:
            q = initiate_particles(model, s['pf'], 9, key(50 + args), ys[0], ts[0])
            for i in range(1, T):
                q = propagate_particle_smoother(model, s['pf'], q, ys[i], ts[i], key(71 + i), 1 + args, False)
            out.append(digest(q))
        return [x for o in out for x in o]


class ChangedFilter(Filter):
    """The parameters of the state-space model change."""
    actions = Filter.actions + ('set m',)
    histories = (('run', 'set m', 'run'), ('run', 'set m', 'set m', 'run'), ('run', 'set m', 'other args'), ('other args', 'run', 'set m', 'set a', 'run'), ('run', 'other model', 'set b', 'set m', 'run'))

    def model(self, m):
        g = super().model(0)
        if m:
            self.set_m(g, m)
        return g

    def set_m(self, g, m):
        g.transition_covariance = spd(2, 21, (1., 4.)[m]) if m else super().model(0).transition_covariance


class OptimalFilter(Filter):
    filter = staticmethod(OptimalNonLinearGaussianParticleFilter)
    models = staticmethod(sine)


class EnsembleFilter(Filter):
    filter = staticmethod(EnsembleKalmanFilter)
    models = staticmethod(sine)

    def go(self, s, model, args, **kw):
        T = (4, 5)[args]
        ys = random.normal(key(31 + args), (T, self.obs)) * 1.5
        p = run_particle_filter_for_marginals(model, s['pf'], ys, jnp.arange(T) * 1., key(40 + args), (15, 21)[args] + 2 * s['smoother'], ess_threshold=0.5)
        return digest(p)

    actions = ('run', 'other args', 'other model', 'set b')


FAMILIES = dict(walk=Walk, untuned=Untuned, leap=Leap, tempered=Tempered, quasi=Quasi, quasi2=Quasi2, toy=Toy, ladder=Ladder, adaptiveladder=AdaptiveLadder, shared=Shared, inversion=Inversion,
                adaptiveinversion=AdaptiveInversion, stein=Stein, steinkernel=SteinKernel, rejection=Rejection, quantile=Quantile, simulated=Simulated, shrinking=Shrinking,
                filter=Filter, changedfilter=ChangedFilter, optimalfilter=OptimalFilter, ensemblefilter=EnsembleFilter)


class World:
    def __init__(self, rec, family):
        self.rec, self.f, self.count, self.seen = rec, family, 0, set()
        rec('World')

    def name(self, kind):
        self.count += 1
        return f'{kind}{self.count}'

    def sampler(self, a, b):
        s = dict(id=self.name('s'), a=a, b=b, it=self.f.build(a, b))
        self.rec('Build', id=s['id'], settings=dict(a=a, b=b))
        return s

    def model(self, m):
        s = dict(id=self.name('m'), m=m, it=self.f.other() if m == 2 else self.f.model(m))
        self.rec('Build', id=s['id'], settings=dict(m=m))
        return s

    def change(self, o, field, value):
        o[field] = value
        self.rec('Set', id=o['id'], field=field, value=value)

    def go(self, s, m, args, **kw):
        out = self.f.go(s['it'], m['it'], args, **kw)
        self.rec('Run', method=s['id'], model=m['id'], args=args, out=out)
        return (s['a'], s['b'], m['m'], args)

    def refer(self, a, b, m, args):
        """The same run on objects of its own."""
        if (a, b, m, args) not in self.seen:
            self.seen.add((a, b, m, args))
            self.go(self.sampler(a, b), self.model(m), args)


def histories(rec, family, group, first):
    f = FAMILIES[family]()
    w = World(rec, f)
    for h in group:
        s, m, other = w.sampler(0, 0), w.model(0), w.model(2)
        runs = []
        if h[0] == 'run':       # nothing was done with these objects yet
            w.seen.add((0, 0, 0, 0))
        for act in h:
            if act not in f.actions:
                continue
            if runs and ('run' in act or 'other' in act):      # others are built with other settings, and not used
                w.sampler(1 - s['a'], 1 - s['b'])
                w.model(1 - m['m'])
            if act == 'run':
                runs.append(w.go(s, m, 0))
            elif act == 'other args':
                runs.append(w.go(s, m, 1))
            elif act == 'other model':
                runs.append(w.go(s, other, 0))
            elif act == 'set a':
                w.change(s, 'a', 1 - s['a'])
                f.set_a(s['it'], s['a'])
            elif act == 'set b':
                w.change(s, 'b', 1 - s['b'])
                f.set_b(s['it'], s['b'])
            elif act == 'set m':
                w.change(m, 'm', 1 - m['m'])
                f.set_m(m['it'], m['m'])
            elif act == 'run with a':
                w.change(s, 'a', 1 - s['a'])
                runs.append(w.go(s, m, 0, **f.kw_a(s['a'])))
        for r in runs:
            w.refer(*r)


def elsewhere(rec, family, before):
    """A process that does nothing else, against this one after other runs."""
    r = subprocess.run([sys.executable, __file__, family], capture_output=True, text=True, timeout=300, env=dict(os.environ))
    if r.returncode:
        raise RuntimeError('no result: ' + r.stderr[-500:])
    other = json.loads(r.stdout.strip().splitlines()[-1])
    for b in before:
        g = FAMILIES[b]()
        g.go(g.build(1, 1), g.model(1), 1)
    f = FAMILIES[family]()
    rec('Process', out=f.go(f.build(1, 0), f.model(0), 0), other=other)


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    rng = pyrandom.Random(seed)
    hs = json.load(open(casefile))
    out = []
    for name, cls in FAMILIES.items():
        if name == 'changedfilter':
            out += [(f'{name} {", ".join(h)}', histories, name, [h], seed) for h in cls.histories]
            continue
        mine = [h for h in hs if all(a in cls.actions for a in h)]
        rng.shuffle(mine)
        # those that change something between two runs first
        mine.sort(key=lambda h: -len([a for i, a in enumerate(h) if a.startswith('set') and any('run' in b or 'other' in b for b in h[:i])]))
        top = mine[:len(mine) // 2]
        rng.shuffle(top)
        count, size = (60, 12) if big else (2, 2) if cls.heavy else (4, 4)
        chosen = top[:count * 2 // 3] + mine[len(mine) // 2:][:count - count * 2 // 3]
        if not big:      # every change at least once after a run
            chosen = [[a for a in ('run', 'set m', 'run', 'set b', 'other model', 'run with a', 'set a', 'run') if a in cls.actions]] + chosen[:-1]
        for c in range(0, len(chosen), size):
            out.append((f'{name} {c}', histories, name, chosen[c:c + size], seed))
    names = [n for n in FAMILIES if n not in ('steinkernel',)]
    for i, name in enumerate(names):
        if big or i % 6 == seed % 6:
            out.append((f'process {name}', elsewhere, name, (name, names[(i + 5) % len(names)])))
    return out


if __name__ == '__main__':
    f = FAMILIES[sys.argv[1]]()
    print(json.dumps(f.go(f.build(1, 0), f.model(0), 0)))
