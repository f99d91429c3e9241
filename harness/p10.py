"""Simulator-based samplers: importance draws and Markov moves."""
import json
import random as pyrandom

from abcrun import *
from mcmclog import logged, finish, arrays
from mocat import RMMetropolis
from mocat.src.abc.mcmc import RMMetropolisDiagStepsize

FIELDS = ('value', 'prior_potential', 'simulated_data', 'distance')


def chain_rows(chain):
    d = {k: np.asarray(chain.__dict__[k]) for k in FIELDS}
    return [{k: d[k][i] for k in FIELDS} for i in range(len(d['value']))]


def noise(rec, scenario, rows, steps=None):
    """What the simulator added to the data of these rows."""
    if isinstance(scenario, LatticeABC):
        x = np.array([int(round(float(np.ravel(r['value'])[0]))) for r in rows])
        y = np.array([int(round(float(np.ravel(r['simulated_data'])[0]))) for r in rows])
        for i in (1, 2, 3):
            for j in (1, 2, 3):
                if (x == i).sum() > 30:
                    rec('Frequency', what='data are simulated from their position', count=int(((x == i) & (y == j)).sum()), n=int((x == i).sum()),
                        p=fl(scenario.cfg['sim'][i - 1][j - 1] / sum(scenario.cfg['sim'][i - 1])))
    elif scenario.sd > 0:
        rows = [r for r in rows if np.all(np.isfinite(r['simulated_data']))]
        z = np.array([(np.ravel(r['simulated_data']) - np.asarray(scenario.a) @ r['value']) / scenario.sd for r in rows])
        rec('Normals', what='data are simulated afresh from their position', z=vec(z.T))
        if steps is not None:
            steps = steps[len(steps) - len(z):]
            rec('Pairs', what='simulation noise is independent of the position', u=vec(z[len(z) - len(steps):].T), v=vec(steps.T))


def draws(rec, scenario, sampler, n, seed, threshold=None, rate=None, proposal='prior', distance='euclid', how='instance', before=None, initial=None):
    scenario = scenario()
    sampler = sampler() if not (isinstance(sampler, type) and how == 'class') else sampler
    kw = {}
    asked = np.inf if threshold is None else threshold
    if how != 'instance' and threshold is not None:
        kw['threshold'] = threshold
    if before is not None:
        run(before(), sampler, 30, key(3), **kw)
    state = None if initial is None else cdict(value=jnp.array(initial))
    chain = run(scenario, sampler, n, key(seed), initial_state=state, **kw)
    rows = chain_rows(chain)
    lw = np.asarray(chain.log_weight)
    used = asked if rate is None else float(np.float32(sampler.parameters.threshold))
    out = [dict(row(r), lw=fl(lw[i]), importance=fl(0.)) for i, r in enumerate(rows)]
    if proposal != 'prior':
        for o, r in zip(out, rows):
            x = np.asarray(r['value'], dtype=float)
            o['importance'] = fl(0.5 * np.sum(((x - 0.4) / 0.8) ** 2) + x.size * np.log(0.8) if proposal == 'normal' else 0.)
    rec('Model', model=model_of(scenario, proposal, distance))
    rec('Draws', draws=out, n=n, threshold=fl(np.float32(used)), asked='none' if rate is not None else fl(asked), rate='none' if rate is None else fl(rate))
    x = np.array([r['value'] for r in rows])[0 if initial is None else 1:]
    if proposal == 'normal':
        rec('Normals', what='draws come from the proposal', z=vec(((x - 0.4) / 0.8).T))
    elif proposal == 'box':
        rec('Uniforms', what='draws come from the proposal', u=vec((x - 0.5).T))
    elif isinstance(scenario, LatticeABC):
        p = np.array(scenario.cfg['prior']) / sum(scenario.cfg['prior'])
        for i in (1, 2, 3):
            rec('Frequency', what='draws come from the prior', count=int((np.round(x[:, 0]) == i).sum()), n=len(x), p=fl(p[i - 1]))
    elif isinstance(scenario, Bounded):
        rec('Uniforms', what='draws come from the prior', u=vec(((x + 1) / 2).T))
    else:
        rec('Normals', what='draws come from the prior', z=vec(((x - 0.1) / 1.3).T))
    noise(rec, scenario, rows, (x - 0.4) / 0.8 if proposal == 'normal' else (x - 0.1) / 1.3 if not isinstance(scenario, (LatticeABC, Bounded)) and proposal == 'prior' else None)


def moves(rec, scenario, args, n, keep, seed, threshold=None, kwargs=None, initial=None, distance='euclid'):
    scenario = scenario()
    sampler = logged(RandomWalkABC)(**args)
    kwargs = kwargs or {}
    state = None if initial is None else cdict(value=jnp.array(initial))
    chain = run(scenario, sampler, n, key(seed), initial_state=state, **kwargs)
    finish()
    log = sampler.log
    rows, tags, alphas = chain_rows(chain), np.asarray(chain.tag), np.asarray(chain.alpha)
    rec('Model', model=model_of(scenario, 'prior', distance))
    if len(log) == n - 1:
        special = [i for i in range(n - 1) if tags[i + 1] == i + 1 or not np.isfinite(log[i][1]['prior_potential'])][:keep]
        for i in sorted(set(range(min(keep, n - 1))) | set(special)):
            rej, prop, a, _, extra = log[i]
            rec('Move', prev=row(rows[i]), rej=row(rej), prop=row(prop), next=row(rows[i + 1]), alpha=fl(alphas[i + 1]), threshold=fl(np.float32(extra['threshold'])),
                asked='none' if threshold is None else fl(threshold))
    group = [int(log[i][1]['prior_potential'] > log[i][0]['prior_potential']) if len(log) == n - 1 else 0 for i in range(n - 1)]
    rec('Accepts', alphas=vec(alphas[1:]), acc=[bool(tags[i + 1] == i + 1) for i in range(n - 1)], group=group, proposals=len(log), transitions=n - 1)
    step = [np.sqrt(np.asarray(p['stepsize'] if 'stepsize' in p else sampler.parameters.stepsize)) for _, p, *_ in log]
    z = np.array([(p['value'] - r['value']) / s for (r, p, *_), s in zip(log, step)])
    rec('Normals', what='random-walk steps are independent centred normals of variance stepsize', z=vec(z.T))
    noise(rec, scenario, [p for _, p, *_ in log], None if getattr(scenario, 'failing', 0) else z)


def lin(dim=2, ydim=3, sd=0.5, seed=0, mx=False):
    return lambda: (MaxABC if mx else LinearABC)(dim, ydim, sd, seed)


def bounded(dim=2, sd=0.3, failing=0.):
    def f():
        s = Bounded(dim, 2, sd, 1)
        s.failing = failing
        return s
    return f


def cases(tier, seed, casefile):
    big = tier == 'thorough'
    n, m, keep = (6000, 6000, 300) if big else (1200, 1500, 60)
    out = []
    configs = json.load(open(casefile))
    rng = pyrandom.Random(seed)
    if not big:
        configs = rng.sample(configs, 28)
    else:
        configs = rng.sample(configs, 200)
    for k, c in enumerate(configs):
        model = f'prior {c["prior"]} simulator {c["sim"]} distances {c["dist"]}'
        if k % 2:
            out.append((f'lattice draws {model} threshold {c["thr"]}', draws, lambda c=c: LatticeABC(c),
                        lambda c=c: VanillaABC(threshold=float(c['thr'])), n // 2, seed + k, float(c['thr'])))
        else:
            out.append((f'lattice moves {model} threshold {c["thr"]} from {c["x"]}', moves, lambda c=c: LatticeABC(c), dict(threshold=float(c['thr']), stepsize=1.),
                        m // 2, keep, seed + k, float(c['thr']), None, [c['x'] * 1.]))
    for rep in range(4 if big else 1):
        s = seed * 100 + rep
        for t in (0., 0.8, 2.5, np.inf):
            out += [(f'draws, threshold {t} #{rep}', draws, lin(2, 2, seed=rep), lambda t=t: VanillaABC(threshold=t), n, s, t),
                    (f'draws by class and keyword, threshold {t} #{rep}', draws, lin(3, 2), VanillaABC, n // 2, s, t, None, 'prior', 'euclid', 'class'),
                    (f'moves, threshold {t} #{rep}', moves, lin(2, 2, seed=rep), dict(threshold=t, stepsize=0.4), m, keep, s, t),
                    (f'normal proposal, threshold {t} #{rep}', draws, lin(2, 3), lambda t=t: NormalProposal(t), n, s + 1, t, None, 'normal'),
                    (f'box proposal, threshold {t} #{rep}', draws, lin(1, 3), lambda t=t: BoxProposal(t), n // 2, s + 2, t, None, 'box')]
        for r in (0., 0.1, 0.37, 1.):
            out += [(f'acceptance rate {r} #{rep}', draws, lin(2, 2), lambda r=r: VanillaABC(acceptance_rate=r), n // 2 + 7, s + 3, None, r),
                    (f'acceptance rate {r}, used before #{rep}', draws, lin(1, 1), lambda r=r: VanillaABC(acceptance_rate=r), n // 3, s + 3, None, r, 'prior', 'euclid',
                     'instance', lin(1, 1, 0.1)),
                    (f'acceptance rate {r} with ties #{rep}', draws, lambda: LatticeABC(dict(prior=[1, 2, 1], sim=[[2, 1, 1], [1, 2, 1], [1, 1, 2]], dist=[0, 1, 2])),
                     lambda r=r: VanillaABC(acceptance_rate=r), n // 3, s + 4, None, r)]
        out += [(f'exact simulator, draws #{rep}', draws, lin(2, 2, 0.), lambda: VanillaABC(threshold=1.), n // 2, s + 5, 1.),
                (f'exact simulator, moves #{rep}', moves, lin(2, 2, 0.), dict(threshold=1., stepsize=0.3), m // 2, keep, s + 5, 1.),
                (f'threshold by keyword, used before #{rep}', draws, lin(2, 2), lambda: VanillaABC(threshold=9.), n // 2, s + 6, 0.7, None, 'prior', 'euclid', 'kwargs', lin(3, 1)),
                (f'supplied start #{rep}', draws, lin(2, 2), lambda: VanillaABC(threshold=2.), 200, s + 7, 2., None, 'prior', 'euclid', 'instance', None, [0.3, 3.]),
                (f'a single draw #{rep}', draws, lin(2, 2), lambda: VanillaABC(threshold=2.), 1, s + 7, 2., None, 'prior', 'euclid', 'instance', None, [0.3, 3.]),
                (f'other distance, draws #{rep}', draws, lin(2, 3, 0.5, 0, True), lambda: VanillaABC(threshold=1.), n, s + 8, 1., None, 'prior', 'max'),
                (f'other distance, moves #{rep}', moves, lin(2, 3, 0.5, 0, True), dict(threshold=1., stepsize=0.5), m, keep, s + 8, 1., None, None, 'max'),
                (f'matrix data, draws #{rep}', draws, lambda: MatrixABC(2, 4, 0.5), lambda: VanillaABC(threshold=2.), n // 2, s + 8, 2.),
                (f'matrix data, moves #{rep}', moves, lambda: MatrixABC(2, 4, 0.5), dict(threshold=2., stepsize=0.5), m // 2, keep, s + 8, 2.),
                (f'bounded prior, moves #{rep}', moves, bounded(), dict(threshold=1.5, stepsize=0.6), m, keep, s + 9, 1.5),
                (f'bounded prior, failing simulator, moves #{rep}', moves, bounded(failing=0.25), dict(threshold=np.inf, stepsize=0.6), m, keep, s + 9, np.inf),
                (f'bounded prior, failing simulator, draws #{rep}', draws, bounded(failing=0.25), lambda: VanillaABC(threshold=np.inf), n, s + 9),
                (f'bounded prior, normal proposal #{rep}', draws, bounded(), lambda: NormalProposal(1.), n, s + 10, 1., None, 'normal'),
                (f'keyword threshold, moves #{rep}', moves, lin(), dict(stepsize=0.4), m // 2, keep, s + 11, 1.2, dict(threshold=1.2)),
                (f'adaptive threshold #{rep}', moves, lin(), dict(stepsize=0.4, threshold=3.), m // 2, keep, s + 12, None, dict(correction=RMMetropolis)),
                (f'adaptive threshold and stepsizes #{rep}', moves, lin(3, 2), dict(stepsize=0.4, threshold=3.), m // 2, keep, s + 13, None, dict(correction=RMMetropolisDiagStepsize())),
                (f'moves from far outside #{rep}', moves, lin(), dict(stepsize=1., threshold=0.6), m, keep, s + 14, 0.6, None, [4., -4.])]
    return out
