"""Replay of TLC's operation histories (MCCdict) on real dictionaries."""
import json

import numpy as np
import jax
import jax.numpy as jnp

from lib import *
from mocat import static_cdict


def build(x):
    if x['t'] == 'arr':
        return jnp.array(x['v'])
    if x['t'] == 'py':
        return x['v']
    cls = cdict if x['t'] == 'dict' else static_cdict
    out = cls()
    for k, v in x['f']:
        setattr(out, k, build(v))
    return out


def show(x):
    if isinstance(x, static_cdict):
        return dict(t='static', f=[[k, show(v)] for k, v in x.__dict__.items()])
    if isinstance(x, cdict):
        return dict(t='dict', f=[[k, show(v)] for k, v in x.__dict__.items()])
    if isinstance(x, jnp.ndarray):
        return dict(t='arr', r=x.ndim, v=np.asarray(x).tolist())
    if isinstance(x, int):
        return dict(t='py', v=x)
    return dict(t='other', v=repr(type(x)))


def index_of(idx):
    return dict(int=lambda: idx['i'], slice=lambda: slice(idx['a'], idx['b']), gather=lambda: jnp.array(idx['is']),
                mask=lambda: jnp.array(idx['m']), newaxis=lambda: jnp.newaxis)[idx['k']]()


def replay(rec, base, ops):
    d = build(base)
    rec('New', d=base, now=show(d))
    keys(rec, d)
    for op in ops:
        o = op['op']
        same = True
        if o == 'index':
            r = d[index_of(op['idx'])]
        elif o == 'add':
            other = build(op['other'])
            r = d + other
            same = show(other) == op['other']
        elif o == 'addNone':
            r = d + None
        elif o == 'copy':
            r = d.copy()
        elif o == 'deepcopy':
            r = d.deepcopy()
        elif o == 'tree':
            leaves, struct = jax.tree_util.tree_flatten(d)
            r = jax.tree_util.tree_unflatten(struct, leaves)
        elif o == 'jit':
            r = jax.jit(lambda c: c)(d)
        elif o == 'stack':
            r = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[d] * op['n'])
        elif o == 'set':
            r = d.copy()
            setattr(r, op['key'], jnp.array(op['val']))
        elif o == 'setDeep':
            r = d.deepcopy()
            setattr(getattr(r, op['key']), op['sub'], jnp.array(op['val']))
        rec('Op', op=op, after=show(r), original=show(d), argSame=same)
        d = r
    keys(rec, d)


def keys(rec, d):
    ks = list(d.keys())
    rec('Keys', keys=ks, iter=list(iter(d)), empty=bool(d.is_empty), lookup=all(d[k] is getattr(d, k) for k in ks))


def chains(rec, seed):
    """The same laws on dictionaries that real runs return."""
    from mocat import RandomWalk
    sc = prior_gaussian(2, 1)
    c = run(sc, RandomWalk(stepsize=0.5), 7, key(seed))
    for cut in (1, 3, 6):
        j = c[:cut] + c[cut:]
        rec('Chain', same=all(bool(jnp.array_equal(c[k], j[k])) for k in ('value', 'potential', 'alpha'))
            and j.summary is c.summary or j.summary.__dict__ == c.summary.__dict__)
        rec('Chain', same=j.time == 2 * c.time)
    rec('Chain', same=bool(jnp.array_equal(c[2].value, c.value[2])) and c[2].summary.sampler == c.summary.sampler)
    d = run(sc, RandomWalk(stepsize=0.5), 5, key(seed + 1), initial_state=c[-1])
    j = c + d
    rec('Chain', same=bool(jnp.array_equal(j.value[:7], c.value)) and bool(jnp.array_equal(j.value[7:], d.value))
        and j.time == c.time + d.time and len(j.alpha) == 12)


def cases(tier, seed, casefile):
    generated = json.load(open(casefile))
    out = [('chains', chains, seed)]
    singles = [g for g in generated if len(g['ops']) == 1]
    doubles = [g for g in generated if len(g['ops']) > 1]
    rng = np.random.RandomState(seed)
    order = rng.permutation(len(doubles))
    if tier == 'quick':
        order = order[:1500]
    for i, g in enumerate(singles + [doubles[i] for i in order]):
        label = ' '.join(o['op'] + (':' + json.dumps(o['idx']) if 'idx' in o else '') for o in g['ops'])
        out.append((f"{i} {','.join(k for k, _ in g['base']['f'])} {label}"[:120], replay, g['base'], g['ops']))
    return out
