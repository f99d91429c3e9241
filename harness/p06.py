"""The leapfrog integrator and the underdamped transition."""
import numpy as np
import jax.numpy as jnp

from kit import fl, vec, ints
from lib import *
from mcmclog import logged, finish
from p04 import model_of
from mocat import Underdamped, Metropolis, RMMetropolis, utils
from mocat import twodim


def integrate(rec, scenario, h, steps, temperature, x0, p0, seed):
    scenario = scenario()
    scenario.temperature = temperature
    x0, p0 = jnp.array(x0, dtype='float32'), jnp.array(p0, dtype='float32')
    keys = random.split(key(seed), steps)

    def state(x, p):
        pp, pg = scenario.prior_potential_and_grad(x, keys[0])
        lp, lg = scenario.likelihood_potential_and_grad(x, keys[0])
        return cdict(value=x, momenta=p, prior_potential=pp, grad_prior_potential=pg, likelihood_potential=lp,
                     grad_likelihood_potential=lg, potential=pp + temperature * lp, grad_potential=pg + temperature * lg)
    out = utils.leapfrog(scenario.prior_potential_and_grad, scenario.likelihood_potential_and_grad, state(x0, p0), h, keys, temperature)
    back = utils.leapfrog(scenario.prior_potential_and_grad, scenario.likelihood_potential_and_grad,
                          state(out.value[-1], -out.momenta[-1]), h, keys, temperature)
    f = {}
    m = model_of(scenario)
    if m is not None:
        f['model'] = m
    rec('Leapfrog', steps=steps, h=fl(h), x0=vec(x0), p0=vec(p0), x=vec(out.value), p=vec(out.momenta), g=vec(out.grad_potential),
        u=vec(out.potential), upot=[fl(scenario.potential(x, keys[0])) for x in out.value],
        grads=[vec(scenario.grad_potential(x, keys[0])) for x in out.value], back=vec(back.value[-1]), backp=vec(back.momenta[-1]), **f)


def chain(rec, scenario, args, n, keep, seed, temperature=1., correction=None, initial=None):
    scenario = scenario()
    scenario.temperature = temperature
    sampler = logged(Underdamped)(**args)
    kw = {} if correction is None else dict(correction=correction)
    c = run(scenario, sampler, n, key(seed), initial_state=initial, **kw)
    finish()
    model = model_of(scenario)
    if len(sampler.log) != n - 1:
        return
    adaptive = hasattr(c, 'stepsize')
    for i in list(range(min(keep, n - 1))):
        rej, prop, *_ = sampler.log[i]
        h = c.stepsize[i] if adaptive else args['stepsize']
        rec('Proposal', model=model, h=fl(h), steps=args.get('leapfrog_steps', 1), friction=fl(args.get('friction', np.inf)), rejx=vec(rej['value']),
            rejp=vec(rej['momenta']), propx=vec(prop['value']), propp=vec(prop['momenta']), prevx=vec(c.value[i]), prevp=vec(c.momenta[i]),
            nextx=vec(c.value[i + 1]), nextp=vec(c.momenta[i + 1]))
    if not adaptive and args.get('friction', np.inf) > 0:
        rec('Refresh', h=fl(args['stepsize']), friction=fl(args.get('friction', np.inf)), rej=vec(np.array([r['momenta'] for r, *_ in sampler.log]).T),
            prev=vec(np.asarray(c.momenta[:-1]).T))


def cases(tier, seed):
    big = tier == 'thorough'
    rng = np.random.RandomState(seed)
    out = []
    for k in range(120 if big else 28):
        d = (1, 2, 3, 5)[k % 4]
        steps = (1, 2, 5, 9)[(k // 4) % 4]
        t = (1., 0.3, 2.)[k % 3]
        h = float(np.round(rng.uniform(0.05, 0.5), 3))
        x0, p0 = rng.normal(size=d), rng.normal(size=d)
        out.append((f'leapfrog Gaussian d={d} steps={steps} temperature={t} #{k}', integrate, lambda d=d, k=k: prior_gaussian(d, k), h, steps, t, x0, p0, k))
    for k, s in enumerate([lambda: DoubleWell(2), lambda: DoubleWell(3), lambda: Rastrigin(2), lambda: twodim.Banana(), lambda: GaussianMixture(jnp.array([[0., 1.], [2., -1.]]))]):
        for t in (1., 0.5):
            out.append((f'leapfrog other scenario {k} temperature={t}', integrate, s, 0.05, 4, t, rng.normal(size=s().dim), rng.normal(size=s().dim), k))
    n, keep = (20000, 300) if big else (3000, 60)
    for rep in range(3 if big else 1):
        s = 100 * seed + rep
        k = 0
        for friction in (np.inf, 0., 0.3, 2.):
            for steps in (1, 4):
                for d, t in ((2, 1.), (3, 0.5)):
                    k += 1
                    out.append((f'underdamped friction={friction} steps={steps} d={d} temperature={t} #{rep}', chain, lambda d=d, k=k: prior_gaussian(d, k),
                                dict(stepsize=(0.4, 0.7)[k % 2], leapfrog_steps=steps, friction=friction), n if friction else 200, keep, s + k, t))
        out.append((f'underdamped defaults #{rep}', chain, lambda: prior_gaussian(1, 3), dict(stepsize=0.9), n, keep, s + 50))
        out.append((f'underdamped adaptive #{rep}', chain, lambda: prior_gaussian(2, 3), dict(stepsize=0.9, leapfrog_steps=3, friction=0.5), 200, keep, s + 51, 1.,
                    RMMetropolis()))
        out.append((f'underdamped supplied momenta #{rep}', chain, lambda: prior_gaussian(2, 3), dict(stepsize=0.5, leapfrog_steps=2, friction=0.), 100, keep, s + 52, 1.,
                    None, cdict(value=jnp.array([0.3, 0.1]), momenta=jnp.array([1., -2.]))))
    return out
