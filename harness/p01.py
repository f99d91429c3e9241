"""The run loop: replay of every TLC behaviour of MCRunLoop, and relations between runs of the shipped samplers."""
import json

import numpy as np
import jax.numpy as jnp

from kit import fl, vec, ints
from lib import *
from mocat import (RandomWalk, Underdamped, QNUnderdamped, Metropolis, RMMetropolis, Uncorrected, SVGD, TemperedEKI,
                   MetropolisedSMCSampler)


class Table(Sampler):
    """The abstract sampler of RunLoop.tla as a mocat sampler."""
    name = 'table'

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        self.max_iter = cfg['maxIter']

    def startup(self, scenario, n, initial_state, initial_extra, **kwargs):
        initial_state = cdict(value=jnp.array(self.cfg['init']), mem=jnp.array(0), it=jnp.array(0))
        initial_state, initial_extra = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
        initial_extra.mem = jnp.array(0)
        initial_extra.table = jnp.array(self.cfg['table'])
        initial_extra.stop = jnp.array(self.cfg['stop'])
        return initial_state, initial_extra

    def termination_criterion(self, state, extra):
        return jnp.logical_or(extra.stop[state.value], extra.iter >= self.max_iter)

    def update(self, scenario, state, extra):
        new_state, new_extra = state.copy(), extra.copy()
        new_extra.iter = extra.iter + 1
        new_state.value = extra.table[state.value, extra.mem]
        new_extra.mem = state.value
        new_state.mem = new_extra.mem
        new_state.it = new_extra.iter
        return new_state, new_extra


class TableNoCount(Table):
    """Leaves the iteration counter alone: the loop's own bound has to hold (ImportanceABC does this)."""

    def update(self, scenario, state, extra):
        new_state, new_extra = super().update(scenario, state, extra)
        new_extra.iter = extra.iter
        return new_state, new_extra


def replay(rec, cls, cfg):
    chain = run(Gaussian(), cls(cfg), n=3, random_key=None)
    v = ints(chain.value)
    rec('Start', cfg=cfg, v=v[0])
    for i in range(1, len(v)):
        rec('Step', v=v[i], mem=int(chain.mem[i]), it=int(chain.it[i]) if cls is Table else i)
    rec('Return', lens=[len(chain.value), len(chain.mem), len(chain.it)])


def fields(chain, n=None):
    out = {}
    for k, a in chain.__dict__.items():
        if k not in ('time', 'summary') and isinstance(a, jnp.ndarray):
            out[k] = vec(np.asarray(a).reshape(len(a), -1))
    return out


def freeze(obj):
    """Everything a caller can see in an object, as a string."""
    if isinstance(obj, cdict):
        return {k: freeze(v) for k, v in obj.__dict__.items()}
    if isinstance(obj, (jnp.ndarray, np.ndarray)):
        return str(np.asarray(obj).tolist()) + str(obj.dtype)
    return repr(obj)


def record_run(rec, chain, n, sampler, scenario):
    rec('Run', len=len(chain.value), expected=n, lens=[len(a) for k, a in chain.__dict__.items()
                                                       if k not in ('time', 'summary') and isinstance(a, jnp.ndarray)],
        sampler=getattr(chain.summary, 'sampler', ''), samplerExpected=sampler.name,
        scenario=getattr(chain.summary, 'scenario', ''), scenarioExpected=scenario.name, time=fl(chain.time))


def mcmc(rec, make, scenario, seed, warm):
    k = key(seed)
    short = run(scenario, make(), 4, k)
    long = run(scenario, make(), 9, k)
    record_run(rec, short, 4, make(), scenario)
    record_run(rec, long, 9, make(), scenario)
    rec('Prefix', a=fields(short), b=fields(long))
    again = run(scenario, make(), 9, k)
    rec('Equal', why='the same arguments and key give the same chain', a=fields(long), b=fields(again))
    one = run(scenario, make(), 1, k)
    record_run(rec, one, 1, make(), scenario)
    rec('Prefix', a=fields(one), b=fields(short))
    if not warm:
        return
    # supplied initial state, untouched by the run
    start = cdict(value=jnp.arange(scenario.dim) * 0.3 - 0.2)
    extra = cdict(random_key=key(seed + 1))
    before = freeze(start), freeze(extra)
    chain = run(scenario, make(), 5, None, initial_state=start, initial_extra=extra)
    rec('First', first=vec(chain.value[0]), supplied=vec(start.value))
    rec('Unchanged', before=str(before), after=str((freeze(start), freeze(extra))))
    keyed = run(scenario, make(), 5, key(seed + 1), initial_state=start)
    rec('Equal', why='a key in the supplied extra is used like the run\'s own key', a=fields(chain), b=fields(keyed))
    overruled = run(scenario, make(), 5, key(seed + 1), initial_state=start, initial_extra=cdict(random_key=key(seed + 77)))
    rec('Equal', why='an explicitly given key takes precedence', a=fields(overruled), b=fields(keyed))
    # continue from the end of an earlier chain
    frozen = freeze(long.value), freeze(long.summary)
    cont = run(scenario, make(), 4, key(seed + 2), initial_state=long[-1])
    record_run(rec, cont, 4, make(), scenario)
    rec('First', first=vec(cont.value[0]), supplied=vec(long.value[-1]))
    rec('Unchanged', before=str(frozen), after=str((freeze(long.value), freeze(long.summary))))
    fresh = run(scenario, make(), 4, key(seed + 2), initial_state=cdict(value=long.value[-1], **(
        dict(momenta=long.momenta[-1]) if hasattr(long, 'momenta') else {})))
    rec('Equal', why='continuing a chain only depends on its last state', a=dict(value=vec(cont.value)), b=dict(value=vec(fresh.value)))


def kwargs_case(rec, scenario, seed):
    """Arguments given to run reach the sampler; a sampler class is the same as its instance."""
    k = key(seed)
    a = run(scenario, RandomWalk, 6, k, stepsize=0.37)
    b = run(scenario, RandomWalk(stepsize=0.37), 6, k)
    rec('Equal', why='a sampler class with arguments is the same as the instance', a=fields(a), b=fields(b))
    c = run(scenario, RandomWalk(stepsize=0.1), 6, k, stepsize=0.37)
    rec('Equal', why='arguments given to the run override those of the sampler', a=fields(a), b=fields(c))
    for ch in (a, b, c):
        rec('Param', recorded=fl(ch.summary.parameters.stepsize), used=fl(0.37))
    d = run(scenario, Underdamped, 5, k, stepsize=0.2, leapfrog_steps=2, friction=1.5)
    f = run(scenario, Underdamped(0.2, 2, 1.5), 5, k)
    rec('Equal', why='a sampler class with arguments is the same as the instance', a=fields(d), b=fields(f))
    rec('Param', recorded=fl(d.summary.parameters.friction), used=fl(1.5))
    s = RandomWalk(stepsize=0.1)
    g = run(scenario, s, 6, k, correction=Uncorrected)
    h = RandomWalk(stepsize=0.1)
    h.correction = Uncorrected()
    rec('Equal', why='arguments given to the run override those of the sampler', a=fields(run(scenario, h, 6, k)), b=fields(g))
    ex = cdict(parameters=cdict(stepsize=0.21))
    before = freeze(ex)
    i = run(scenario, RandomWalk(stepsize=0.1), 6, k, initial_extra=ex)
    rec('Equal', why='parameters in the supplied extra take precedence', a=fields(i),
        b=fields(run(scenario, RandomWalk(stepsize=0.21), 6, k)))
    rec('Unchanged', before=str(before), after=str(freeze(ex)))
    # a record does not change when the sampler is modified afterwards
    s2 = RandomWalk(stepsize=0.1)
    j = run(scenario, s2, 3, k)
    frozen = freeze(j.summary)
    s2.parameters.stepsize = 9.
    run(scenario, s2, 3, k)
    rec('Unchanged', before=str(frozen), after=str(freeze(j.summary)))


class Barrier(RandomWalk):
    """A random walk that stops the first time it leaves a box."""
    name = 'barrier'

    def termination_criterion(self, state, extra):
        return jnp.logical_or(super().termination_criterion(state, extra), jnp.any(jnp.abs(state.value) > self.parameters.box))


def barrier(rec, scenario, seed, box):
    s = Barrier(stepsize=2.0)
    s.parameters.box = box
    chain = run(scenario, s, 25, key(seed))
    rec('Stops', flags=[bool(np.any(np.abs(v) > np.float32(box))) for v in np.asarray(chain.value)], budget=25)
    free = RandomWalk(stepsize=2.0)
    rec('Prefix', a=fields(chain), b=fields(run(scenario, free, 25, key(seed))))


def ensembles(rec, seed):
    scenario = prior_gaussian(2, 1)
    n = 12
    k = key(seed)
    sv = SVGD(stepsize=0.1, max_iter=6)
    c = run(scenario, sv, n, k)
    record_run(rec, c, 7, sv, scenario)
    c2 = run(scenario, SVGD(stepsize=0.1, max_iter=3), n, k)
    rec('Prefix', a=dict(value=fields(c2)['value']), b=dict(value=fields(c)['value']))
    init = cdict(value=random.normal(key(seed + 5), (n, 2)))
    before = freeze(init)
    c3 = run(scenario, SVGD(stepsize=0.1, max_iter=3), n, k, initial_state=init)
    rec('First', first=vec(c3.value[0].ravel()), supplied=vec(init.value.ravel()))
    rec('Unchanged', before=str(before), after=str(freeze(init)))
    c4 = run(scenario, SVGD(stepsize=0.1, max_iter=3), n, k, initial_state=c3[-1])
    rec('First', first=vec(c4.value[0].ravel()), supplied=vec(c3.value[-1].ravel()))
    sm = MetropolisedSMCSampler(RandomWalk(stepsize=0.3), temperature_schedule=jnp.array([0., 0.1, 0.4, 1.]))
    c5 = run(scenario, sm, n, k)
    record_run(rec, c5, 3, sm, scenario)
    c6 = run(scenario, sm, n, k, initial_state=init)
    rec('First', first=vec(c6.value[0].ravel()), supplied=vec(init.value.ravel()))


def abc_runs(rec, seed):
    scenario = LinearABC()
    k = key(seed)
    v = mabc.VanillaABC(threshold=2.)
    a, b = run(scenario, v, 5, k), run(scenario, v, 9, k)
    record_run(rec, a, 5, v, scenario)
    record_run(rec, b, 9, v, scenario)
    rec('Prefix', a=fields(a), b=fields(b))
    w = mabc.RandomWalkABC(threshold=3., stepsize=0.4)
    c, d = run(scenario, w, 5, k), run(scenario, w, 9, k)
    record_run(rec, d, 9, w, scenario)
    rec('Prefix', a=fields(c), b=fields(d))
    e = run(scenario, w, 4, key(seed + 1), initial_state=d[-1])
    rec('First', first=vec(e.value[0]), supplied=vec(d.value[-1]))
    ek = TemperedEKI(temperature_schedule=jnp.array([0., 0.2, 0.5, 1.]))
    f = run(scenario, ek, 20, k)
    record_run(rec, f, 4, ek, scenario)


def cases(tier, seed, casefile):
    generated = json.load(open(casefile))
    rng = np.random.RandomState(seed)
    order = rng.permutation(len(generated))
    take = 96 if tier == 'quick' else len(generated)
    out = []
    g2, g1 = prior_gaussian(2, 3), Gaussian(dim=1, mean=jnp.array([0.7]), covariance=jnp.array([1.8]))
    gf = Gaussian(mean=jnp.array([0.2, -0.4, 1.]), covariance=spd(3, 5))
    samplers = dict(rw=lambda: RandomWalk(stepsize=0.8),
                    und=lambda: Underdamped(0.3, 3, 0.7),
                    hmc=lambda: Underdamped(0.3, 2),
                    unadjusted=lambda: with_correction(Underdamped(0.1, 1, 2.), Uncorrected),
                    rm=lambda: with_correction(RandomWalk(stepsize=0.5), RMMetropolis()),
                    rm_default=lambda: with_correction(Underdamped(leapfrog_steps=2), RMMetropolis()),
                    qn=lambda: QNUnderdamped(0.3, 2, 1.))
    for sn, make in samplers.items():
        for cn, sc in dict(g2=g2, g3=gf, g1=g1).items():
            if (tier == 'quick' and cn == 'g1' and sn not in ('rw', 'und')) or (sn == 'qn' and cn == 'g1'):
                continue
            out.append((f'{sn} on {cn}', mcmc, make, sc, 11 * seed + len(out), sn != 'qn'))
    out.append(('arguments', kwargs_case, gf, seed))
    for i, box in enumerate([0.5, 1.5, 3., 6.] * (1 if tier == 'quick' else 5)):
        out.append((f'barrier {i}', barrier, gf, seed * 100 + i, box))
    out.append(('ensembles', ensembles, seed))
    out.append(('abc', abc_runs, seed))
    for i in order[:take]:
        cfg = generated[i]['cfg']
        name = f"init={cfg['init']} table={cfg['table']} stop={cfg['stop']} max={cfg['maxIter']}"
        out.append(('table ' + name, replay, Table, cfg))
        if i % 4 == 0:
            out.append(('no-count ' + name, replay, TableNoCount, cfg))
    return out


def with_correction(sampler, correction):
    sampler.correction = correction
    return sampler
