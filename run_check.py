#!/usr/bin/env python3
"""run_check.py PROPERTY quick|thorough

Decides one property of properties.jsonl:
  1. TLC checks the design models (spec/MC*.tla) listed for it in harness/plan.py;
  2. the drivers run the code in /repo and record traces (for spec -> code replay, the cases come from TLC);
  3. TLC evaluates the trace specification on what was recorded and names every violated clause.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: it did not.  Anything else: the machinery failed.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE / 'harness'))
from plan import PLAN  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


class MachineryError(Exception):
    pass


def child_env(scratch):
    env = dict(os.environ)
    env.update(JAX_PLATFORMS='cpu', MPLBACKEND='Agg', MPLCONFIGDIR=str(scratch / 'mpl'),
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', VERIF_REPO=REPO,
               XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 '
                         '--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', HOME=str(scratch), VERIF_SCRATCH=str(scratch))
    env.pop('PYTHONPATH', None)
    return env


def compile_java(scratch):
    out = scratch / 'classes'
    out.mkdir()
    r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', str(out)] + [str(p) for p in (HERE / 'java').glob('*.java')],
                       capture_output=True, text=True)
    if r.returncode:
        raise MachineryError('javac failed:\n' + r.stderr)
    return out


def tlc(scratch, classes, module, cfg, env=None, workers='1', heap='2g', timeout=840, extra=()):
    meta = tempfile.mkdtemp(dir=scratch, prefix='tlc')
    tmp = tempfile.mkdtemp(dir=scratch, prefix='jtmp')
    e = child_env(scratch)
    e.update(env or {})
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:CICompilerCount=2',
           '-XX:TieredStopAtLevel=4', f'-Djava.io.tmpdir={tmp}',
           '-cp', f'{classes}:{JARS}', f'-DTLA-Library={HERE / "spec"}', 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-config', str(HERE / 'spec' / cfg), *extra, str(HERE / 'spec' / (module + '.tla'))]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=scratch)
    except subprocess.TimeoutExpired:
        raise MachineryError(f'TLC timed out on {module}/{cfg}')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.stdout)
    states, trans = (int(m[-1][1].replace(',', '')), int(m[-1][0].replace(',', ''))) if m else (0, 0)
    return r.returncode, r.stdout + r.stderr, states, trans


def run_design(scratch, classes, spec):
    t0 = time.time()
    code, out, states, trans = tlc(scratch, classes, spec['module'], spec['cfg'],
                                   workers=spec.get('workers', 4), heap=spec.get('heap', '4g'),
                                   extra=spec.get('extra', ()))
    cases = [json.loads(json.loads(line)[5:]) for line in sorted(set(out.splitlines())) if line.startswith('"CASE ')]
    if code != 0:
        # the specification itself is inconsistent: not a statement about the code
        raise MachineryError(f'design model {spec["module"]}/{spec["cfg"]} not accepted by TLC (exit {code}):\n' + out[-4000:])
    return dict(module=spec['module'], cfg=spec['cfg'], states=states, transitions=trans, wall_s=round(time.time() - t0, 1),
                cases=cases)


def run_worker(scratch, driver, tier, shard, nshards, casefile, deadline):
    out = scratch / f'trace_{driver}_{shard}.ndjson'
    err = scratch / f'err_{driver}_{shard}.txt'
    with open(err, 'w') as ef:
        p = subprocess.Popen([PYTHON, str(HERE / 'harness' / 'worker.py'), driver, tier, str(shard), str(nshards), str(out),
                              str(casefile or '')], stdout=ef, stderr=ef, env=child_env(scratch), cwd=scratch)
        try:
            code = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            code = 'hang'
    text = err.read_text()[-3000:]
    if code == 'hang':
        lines = out.read_text().splitlines() if out.exists() else []
        last = json.loads(lines[-1])['case'] if lines else 'first'
        with open(out, 'a') as f:
            f.write(json.dumps(dict(case=f'after {last}', ev='Abnormal', what='call did not return')) + '\n')
    elif code in (-6, -8, -11, 134, 136, 139):
        with open(out, 'a') as f:
            f.write(json.dumps(dict(case='process', ev='Abnormal', what=f'process died with code {code}')) + '\n')
    elif code != 0:
        raise MachineryError(f'driver {driver} shard {shard} failed with code {code}:\n{text}')
    return out


def drop_partial_line(path):
    lines = path.read_text().splitlines()
    good = []
    for x in lines:
        try:
            json.loads(x)
            good.append(x)
        except ValueError:
            pass
    path.write_text(''.join(g + '\n' for g in good))
    return len(good), len({json.loads(g)['case'] for g in good})


def validate(scratch, classes, module, path):
    n, ncases = drop_partial_line(path)
    if n == 0:
        return dict(lines=0, cases=0, bad=[], states=0, transitions=0)
    code, out, states, trans = tlc(scratch, classes, module, 'Trace.cfg', env={'TRACE_FILE': str(path)}, heap='3g')
    for line in out.splitlines():
        if line.startswith('"VERDICT '):
            v = json.loads(json.loads(line)[8:])
            if v['lines'] != n:
                raise MachineryError(f'{module}: {v["lines"]} of {n} lines read')
            return dict(lines=n, cases=ncases, bad=v['bad'], states=states, transitions=trans)
    if code in (75, 76, 77) or (code not in (0, 1) and code < 150 and 'Attempted to' in out):
        # an observation that is not even in the domain of the specification's operators
        m = re.search(r'/\\ l = (\d+)', out[::1])
        ls = re.findall(r'/\\ l = (\d+)', out)
        i = int(ls[-1]) if ls else 1
        e = json.loads(path.read_text().splitlines()[min(i, n) - 1])
        reason = re.search(r'(Attempted to[^\n]*|RuntimeException[^\n]*|[^\n]*lengths differ[^\n]*|[^\n]*shapes differ[^\n]*)', out)
        return dict(lines=n, cases=ncases, states=states, transitions=trans,
                    bad=[dict(line=i, case=e['case'], ev=e['ev'], clause='observation outside the specification\'s domain',
                              reason=(reason.group(0) if reason else out[-600:]))])
    raise MachineryError(f'trace spec {module} failed (exit {code}) on {path.name}:\n' + out[-4000:])


def main():
    if len(sys.argv) < 3 or sys.argv[1] not in PLAN:
        print('usage: run_check.py PROPERTY quick|thorough', file=sys.stderr)
        return 2
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    deadline = t0 + (480 if tier == 'quick' else 780)
    plan = PLAN[pid]
    scratch = Path(tempfile.mkdtemp(prefix=f'verif_{pid}_'))
    keep = os.environ.get('VERIF_KEEP')
    try:
        (scratch / 'mpl').mkdir()
        classes = compile_java(scratch)
        designs, bad, ntraces, nlines, tstates, ttrans, samples = [], [], 0, 0, 0, 0, []
        design_specs = [d for d in plan.get('design', []) if tier in d.get('tiers', ('quick', 'thorough'))]
        gen_specs = [d for d in design_specs if d.get('feeds')]
        with ThreadPoolExecutor(NPROC + 4) as pool:
            other = [pool.submit(run_design, scratch, classes, d) for d in design_specs if not d.get('feeds')]
            casefiles = {}
            for d, f in [(d, pool.submit(run_design, scratch, classes, d)) for d in gen_specs]:
                r = f.result()
                designs.append(r)
                if not r['cases']:
                    raise MachineryError(f'{d["module"]} generated no behaviours')
                path = scratch / f'cases_{d["feeds"]}.json'
                path.write_text(json.dumps(r['cases']))
                casefiles[d['feeds']] = path
            jobs = []
            for tr in plan['traces']:
                k = tr.get('shards', NPROC)
                for s in range(k):
                    jobs.append((tr, pool.submit(run_worker, scratch, tr['driver'], tier, s, k,
                                                 casefiles.get(tr['driver']), deadline)))
            vals = [(tr, pool.submit(lambda f=f, tr=tr: validate(scratch, classes, tr['spec'], f.result())), f) for tr, f in jobs]
            for tr, v, f in vals:
                r = v.result()
                ntraces += r['cases']
                nlines += r['lines']
                tstates += r['states']
                ttrans += r['transitions']
                lines = f.result().read_text().splitlines()
                if lines and len(samples) < 5:
                    samples.append(lines[len(lines) // 2][:600])
                for b in r['bad']:
                    b['trace'] = lines[b['line'] - 1] if 0 < b['line'] <= len(lines) else ''
                    b['driver'] = tr['driver']
                    bad.append(b)
            for f in other:
                designs.append(f.result())
        if ntraces == 0:
            raise MachineryError('no traces recorded')
        min_cases = plan.get('min_cases', 1)
        if ntraces < min_cases:
            raise MachineryError(f'only {ntraces} executions recorded, expected {min_cases}')
        known = json.loads((HERE / 'known_findings.json').read_text())
        listed = [k for k in known['findings'] if k['property'] == pid]
        seen, fresh = [], []
        for b in bad:
            hit = [k for k in listed if b['case'] in k['cases'] and k['clause'] == b['clause']]
            (seen if hit else fresh).append((b, hit))
        for k in listed:
            if any(hit and hit[0] is k for _, hit in seen):
                print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        status = 0
        ev = HERE / 'evidence'
        ev.mkdir(exist_ok=True)
        violations = []
        if fresh:
            rep = ev / f'replay_{pid}.json'
            rep.write_text(json.dumps([b for b, _ in fresh], indent=1))
            groups = {}
            for b, _ in fresh:
                groups.setdefault((b['case'], b['clause']), b)
            for (case, clause), b in list(groups.items())[:12]:
                print(f'  {b["driver"]}: case [{case}] event {b["ev"]} (line {b["line"]}): violated: {clause}'
                      + (f' ({b["reason"]})' if b.get('reason') else ''))
                violations.append(dict(replay=str(rep), input=case, expected=clause, actual=b['ev']))
            print(f'VIOLATION property={pid} replay={rep}')
            status = 1
        evidence = dict(
            property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
            wall_s=round(time.time() - t0, 1),
            coverage=dict(states=sum(d['states'] for d in designs) + tstates,
                          transitions=sum(d['transitions'] for d in designs) + ttrans,
                          traces_validated_against_impl=ntraces,
                          trace_events=nlines,
                          design_models=[{k: v for k, v in d.items() if k != 'cases'} | {'behaviours_replayed': len(d['cases'])}
                                         for d in designs],
                          samples=samples),
            violations=len(violations),
            assumptions=plan.get('assumptions', ['JAX, numpy and the platform libm compute elementary functions to float32 accuracy',
                                                 'TLC and the Java overrides of spec/Real.tla evaluate the specification correctly']))
        (ev / f'{pid}.json').write_text(json.dumps(evidence, indent=1))
        print(f'{pid} {tier}: {"held" if status == 0 else "VIOLATED"}; {ntraces} executions, {nlines} events, '
              f'design states {sum(d["states"] for d in designs)}; {time.time() - t0:.0f}s')
        return status
    except MachineryError as e:
        print(f'MACHINERY: {e}', file=sys.stderr)
        return 3
    finally:
        if keep:
            print('kept', scratch, file=sys.stderr)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
