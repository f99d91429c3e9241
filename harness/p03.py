"""Histories of saves, loads, faults and crashes (MCPersist) on real files in a scratch directory."""
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np
import jax.numpy as jnp

from lib import *
from mocat import save_cdict, load_cdict, static_cdict

SCRATCH = os.environ['VERIF_SCRATCH']
_armed = dict(root=None, left=None, crash=False)
FS_EVENTS = ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.truncate', 'os.link', 'shutil.move', 'shutil.copyfile')


class Injected(OSError):
    pass


def _hook(event, args):
    if _armed['root'] is None or event not in FS_EVENTS:
        return
    if event == 'open' and not (isinstance(args[1], str) and any(c in args[1] for c in 'wax+') or (args[2] or 0) & (os.O_WRONLY | os.O_RDWR)):
        return
    if not str(args[0]).startswith(_armed['root']):
        return
    if _armed['left'] == 0:
        _armed['root'] = None
        if _armed['crash']:
            os._exit(41)
        raise Injected(f'injected before {event}')
    _armed['left'] -= 1


sys.addaudithook(_hook)
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


def arm(root, fault, crash=False):
    if fault.startswith('fs'):
        _armed.update(root=str(root), left=int(fault[2:]), crash=crash)
    elif fault.startswith('bytes'):
        n = dict(bytes0=0, bytesHalf=9000).get(fault)
        n = int(fault[5:]) if n is None else n
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        if crash:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)


def disarm():
    _armed['root'] = None
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


class Unpicklable:
    def __reduce__(self):
        raise Injected('cannot be pickled')


def content(ver, fault='none'):
    c = cdict(value=jnp.ones((1500, 2)) * ver, potential=jnp.arange(3) + ver, time=0.5 * ver, label=f'v{ver}')
    c.summary = static_cdict(sampler=f's{ver}')
    setattr(c, f'only{ver}', ver)
    if fault == 'pickle':
        c.last = Unpicklable()
    return c


def version_of(path):
    """Which complete version a file holds."""
    if not path.exists():
        return 'none'
    try:
        c = load_cdict(path)
        ver = int(c.label[1:])
        ref = content(ver)
        good = set(c.__dict__) - {'last'} == set(ref.__dict__) and bool(jnp.array_equal(c.value, ref.value)) \
            and bool(jnp.array_equal(c.potential, ref.potential)) and c.time == ref.time \
            and c.summary.sampler == ref.summary.sampler
        return f'v{ver}' if good else 'garbled'
    except Exception as e:
        return f'unreadable: {type(e).__name__}'


def do_save(path, ver, overwrite, fault, root, method):
    c = content(ver, fault)
    arm(root, fault)
    try:
        if method:
            c.save(path, overwrite)
        else:
            save_cdict(c, str(path), overwrite=overwrite)
        return 'ok'
    except Injected:
        return 'failed'
    except RuntimeError:
        return 'refused'
    except OSError:
        return 'failed'
    finally:
        disarm()


def replay(rec, ops, i):
    with tempfile.TemporaryDirectory(dir=SCRATCH) as root:
        root = Path(root)
        rec('Reset')
        where = dict(a=root / 'a.cdict', b=root / 'deep' / 'er' / 'b')
        real = dict(a=root / 'a.cdict', b=root / 'deep' / 'er' / 'b.cdict')
        for op in ops:
            p = op['path']
            if op['op'] == 'load':
                rec('Load', path=p, got=version_of(real[p]))
            else:
                out = do_save(where[p], op['ver'], op['overwrite'], op['fault'], root, method=i % 2 == 0)
                rec('Save', path=p, ver=f"v{op['ver']}", overwrite=op['overwrite'], fault=op['fault'], outcome=out)
        for p in where:
            rec('Load', path=p, got=version_of(real[p]))
        # the library still works afterwards
        out = do_save(where['a'], 9, True, 'none', root, False)
        rec('Save', path='a', ver='v9', overwrite=True, fault='none', outcome=out)
        rec('Load', path='a', got=version_of(real['a']))


CHILD = '''
import sys; sys.path.insert(0, {here!r}); sys.path.insert(0, {repo!r})
import p03
c = p03.content({ver})
p03.arm({root!r}, {fault!r}, crash=True)
p03.save_cdict(c, {path!r}, overwrite=True)
'''


def crash(rec, fault, existing):
    """The process dies in the middle of a save."""
    with tempfile.TemporaryDirectory(dir=SCRATCH) as root:
        root = Path(root)
        path = root / 'a.cdict'
        rec('Reset')
        if existing:
            rec('Save', path='a', ver='v1', overwrite=False, fault='none', outcome=do_save(path, 1, False, 'none', root, False))
        code = CHILD.format(here=os.path.dirname(os.path.abspath(__file__)), repo=os.environ['VERIF_REPO'], ver=2, root=str(root),
                            fault=fault, path=str(path))
        r = subprocess.run(['/opt/venv/bin/python', '-c', code], capture_output=True)
        died = r.returncode in (41, -signal.SIGXFSZ)
        if r.returncode and not died and b'OSError' not in r.stderr:
            raise RuntimeError(r.stderr.decode()[-500:])
        rec('Save', path='a', ver='v2', overwrite=True, fault='crash ' + fault, outcome='ok' if r.returncode == 0 else 'failed')
        rec('Load', path='a', got=version_of(path))
        rec('Save', path='a', ver='v3', overwrite=True, fault='none', outcome=do_save(path, 3, True, 'none', root, False))
        rec('Load', path='a', got=version_of(path))


def show(x):
    if isinstance(x, cdict):
        return {type(x).__name__: {k: show(v) for k, v in x.__dict__.items()}}
    if isinstance(x, jnp.ndarray):
        return f'jax {x.dtype} {x.shape} {np.asarray(x).tobytes().hex()}'
    if isinstance(x, np.ndarray):
        return f'numpy {x.dtype} {x.shape} {x.tobytes().hex()}'
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [show(v) for v in x]
    return f'{type(x).__name__} {x!r}'


def round_trips(rec, seed):
    rng = np.random.RandomState(seed)
    objs = [cdict(),
            cdict(a=jnp.array(1.5), b=jnp.array([], dtype='int32'), c=jnp.array([[True, False]])),
            cdict(x=jnp.array([jnp.nan, jnp.inf, -jnp.inf, -0.0])),
            cdict(n=cdict(m=jnp.arange(5), k=cdict(z=jnp.ones((2, 3, 4)), s='text')), st=static_cdict(p=cdict(q=jnp.array(3)))),
            cdict(f=1.25, i=7, none=None, t=(1, jnp.array(2.)), l=[jnp.array([1, 2]), 'x'], b=False),
            cdict(np_arr=np.arange(4.)),
            static_cdict(a=jnp.arange(3)),
            cdict(key=key(3), big=jnp.array(rng.normal(size=(200, 7)), dtype='float32'))]
    with tempfile.TemporaryDirectory(dir=SCRATCH) as root:
        for i, o in enumerate(objs):
            for j, p in enumerate([f'{root}/s{i}', Path(root) / f'p{i}.cdict', Path(root) / 'new' / f'dir{i}' / 'file']):
                saved = show(o)
                if j == 0:
                    o.save(p)
                else:
                    save_cdict(o, p)
                q = str(p) if str(p).endswith('.cdict') else str(p) + '.cdict'
                got = load_cdict(q if j else Path(q))
                rec('Round', saved=json.dumps(saved), got=json.dumps(show(got)), after=json.dumps(show(o)))
        other = Path(root) / 'other.txt'
        other.write_text('x')
        for p in (other, str(other), Path(root), Path(root) / 'missing.cdict', f'{root}/s0'):
            try:
                load_cdict(p)
                rec('Rejects', outcome='accepted')
            except ValueError:
                rec('Rejects', outcome='rejected')


def chain_round(rec, seed):
    from mocat import RandomWalk, MetropolisedSMCSampler
    sc = prior_gaussian(2, 1)
    with tempfile.TemporaryDirectory(dir=SCRATCH) as root:
        c = run(sc, RandomWalk(stepsize=0.5), 9, key(seed))
        s = run(sc, MetropolisedSMCSampler(RandomWalk(stepsize=0.3)), 20, key(seed))
        for i, ch in enumerate((c, s)):
            before = show(ch)
            ch.save(f'{root}/c{i}')
            back = load_cdict(f'{root}/c{i}.cdict')
            rec('Round', saved=json.dumps(before), got=json.dumps(show(back)), after=json.dumps(show(ch)))
            j = back[:2] + back[2:]
            rec('Works', ok=bool(jnp.array_equal(j.value, ch.value)))
        d = run(sc, RandomWalk(stepsize=0.5), 5, key(seed), initial_state=load_cdict(f'{root}/c0.cdict')[-1])
        rec('Works', ok=bool(jnp.array_equal(d.value[0], c.value[-1])))


def cases(tier, seed, casefile):
    generated = json.load(open(casefile))
    rng = np.random.RandomState(seed)
    order = rng.permutation(len(generated))
    take = 500 if tier == 'quick' else 6000
    out = [('round trips', round_trips, seed), ('chains', chain_round, seed)]
    faults = ['fs0', 'fs1', 'fs2', 'fs3', 'fs4', 'bytes0', 'bytes1', 'bytes4096', 'bytes9000', 'bytes12200']
    if tier != 'quick':
        faults += [f'bytes{b}' for b in range(500, 14000, 500)]
    for f in faults:
        for ex in (True, False):
            out.append((f'crash {f} existing={ex}', crash, f, ex))
    for i in order[:take]:
        ops = generated[i]['ops']
        out.append((' '.join(f"{o['op']}-{o['path']}" + (f"-{o['fault']}-{o['overwrite']}" if o['op'] == 'save' else '') for o in ops),
                    replay, ops, int(i)))
    return out
