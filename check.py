#!/opt/venv/bin/python
"""
Entry point of every check.

  check.py P01                       run the check (tier and seed from VERIF_TIER, VERIF_SEED)
  check.py P01 --replay FILE         replay a recorded failure
  check.py P01 --trace K             print the event log of run K
  check.py P01 --determinism N       run N seeds twice in fresh interpreters and compare event logs
"""

import argparse
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'


def environment(hashseed='0'):
    env = dict(os.environ)
    env.update(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               PYTHONPATH=REPO + '/package:' + HERE, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1',
               PYTHONNOUSERSITE='1', MPLBACKEND='Agg', MPLCONFIGDIR=REPO + '/build/vp/mpl',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8', LC_ALL='C.UTF-8',
               HOME='/root', DST_SELF='1')
    return env


if os.environ.get('DST_SELF') != '1':
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore'] + sys.argv, environment())

sys.path.insert(0, HERE)
from dst import core                                    # noqa: E402


def load(pid):
    mod = importlib.import_module('dst.' + pid.lower())
    return mod.SCENARIO


def build():
    """Rebuild the extension modules from /repo's current working tree."""
    r = subprocess.run(['/opt/venv/bin/python', '/opt/vp/buildext.py'], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, cwd=REPO)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors='replace')[-3000:])
        return False
    return True


def silence():
    """Code under test may print; results travel on a duplicate of stdout."""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)


def prepare(scn):
    """Run the scenario's setup; return a violation record if the code under test
    fails there (a model or engine that cannot even be created), else None."""
    try:
        scn.setup()
    except Exception as e:
        where = core.inside_repo(e)
        if where is None:
            raise
        return dict(cls='setup-' + type(e).__name__, msg='setting up failed with %s: %s at %s' % (type(e).__name__, e, where))
    return None


# ----------------------------------------------------------------------------

def worker(args):
    """Run seeds k = i, i+W, ... and report one JSON line per event on stdout."""
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    silence()
    scn = load(args.pid)
    v = prepare(scn)
    if v:
        out.write(json.dumps(dict(kind='violation', k=args.index, plan=dict(setup=True), orig=dict(setup=True), tries=0, violation=v, log=[])) + '\n')
        out.flush()
        os._exit(0)
    agg = dict(runs=0, faults={}, probes={}, ops={}, time=0.0, checks=0, events=0, nontrivial=0)
    shapes, inter, samples = set(), set(), []
    t_end = time.monotonic() + args.cap
    k = args.index
    known = known_findings(args.pid)
    while k < args.runs and time.monotonic() < t_end:
        plan = core.make_plan(scn, args.seed, k)
        r = core.execute(scn, plan)
        if r.get('harness'):
            r2 = core.execute(scn, plan)
            if r2.get('harness'):
                out.write(json.dumps(dict(kind='harness', k=k, text=r['harness'])) + '\n')
                break
            r = r2
        if r.get('violation'):
            cls = r['violation']['cls']
            if not any(f['class'] == cls for f in known):
                small, tries = core.shrink(scn, plan, cls, budget_s=args.shrink)
                r3 = core.execute(scn, small, keep_log=True)
                out.write(json.dumps(dict(kind='violation', k=k, plan=small, orig=plan, tries=tries,
                                          violation=r3.get('violation') or r['violation'],
                                          log=r3.get('log', [])[-200:])) + '\n')
                break
            out.write(json.dumps(dict(kind='known', cls=cls, k=k)) + '\n')
        if not r.get('died'):
            agg['runs'] += 1
            for f in ('faults', 'probes', 'ops'):
                for key, n in r[f].items():
                    agg[f][key] = agg[f].get(key, 0) + n
            agg['time'] += r['time']
            agg['checks'] += r['checks']
            agg['events'] += r['nevents']
            inter.update(r['interleavings'])
            if r['nontrivial']:
                agg['nontrivial'] += 1
                shapes.add(r['shape'])
                if len(samples) < 1:
                    samples.append(plan)
        k += args.of
    out.write(json.dumps(dict(kind='done', agg=agg, shapes=sorted(shapes), inter=sorted(inter),
                              samples=samples, next=k)) + '\n')
    out.flush()
    os._exit(0)


def known_findings(pid):
    """Genuine defects recorded rather than repaired (none suppresses another
    violation: each is identified by its own violation class)."""
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('known', []) if e['property'] == pid]


def spawn(args, extra, hashseed='0'):
    return subprocess.Popen(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(HERE, 'check.py'), args.pid] + extra,
                            env=environment(hashseed), stdout=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=args.scratch)


def run_check(args):
    t0 = time.monotonic()
    scn = load(args.pid)
    tier = args.tier
    if not build():
        print('ERROR: the extension modules do not build')
        return 2
    t_build = time.monotonic() - t0
    w = args.workers
    if tier == 'thorough':
        runs, cap = 10 ** 9, args.budget or scn.thorough_s
    else:
        runs, cap = scn.quick_runs, args.budget or scn.quick_cap
    if args.runs is not None:
        runs = args.runs
    procs = []
    for i in range(w):
        procs.append(spawn(args, ['--worker', '--index', str(i), '--of', str(w), '--runs', str(runs),
                                  '--cap', str(cap), '--seed', str(args.seed), '--shrink', str(args.shrink)]))
    agg = dict(runs=0, faults={}, probes={}, ops={}, time=0.0, checks=0, events=0, nontrivial=0)
    shapes, inter, samples = set(), set(), []
    viols, harness, known = [], [], {}
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for p in procs:
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, p)
        bufs[p] = b''
    done = set()
    grace = None
    hard = time.monotonic() + cap + args.shrink + 3 * scn.hang_s + 60
    while sel.get_map():
        for key, _ in sel.select(1.0):
            p = key.data
            chunk = p.stdout.read()
            if chunk:
                bufs[p] += chunk
                continue
            if chunk is None:
                continue
            sel.unregister(p.stdout)
            for line in bufs[p].decode().splitlines():
                ev = json.loads(line)
                if ev['kind'] == 'violation':
                    viols.append(ev)
                elif ev['kind'] == 'harness':
                    harness.append(ev)
                elif ev['kind'] == 'known':
                    known[ev['cls']] = known.get(ev['cls'], 0) + 1
                elif ev['kind'] == 'done':
                    done.add(p)
                    a = ev['agg']
                    for f in ('runs', 'time', 'checks', 'events', 'nontrivial'):
                        agg[f] += a[f]
                    for f in ('faults', 'probes', 'ops'):
                        for kk, n in a[f].items():
                            agg[f][kk] = agg[f].get(kk, 0) + n
                    shapes.update(ev['shapes'])
                    inter.update(ev['inter'])
                    samples += ev['samples']
            if viols and grace is None:
                grace = time.monotonic() + 5
        if (grace and time.monotonic() > grace) or time.monotonic() > hard:
            for p in procs:
                if p.poll() is None:
                    p.kill()
    for p in procs:
        p.wait()
    rc = 0
    replay = None
    if viols:
        viols.sort(key=lambda v: (len(json.dumps(v['plan'])), v['k']))
        for v in viols:
            replay = write_replay(args, v, v['plan'])
            ok = confirm(args, replay)
            if not ok:
                # fall back to the unminimised plan before giving up
                replay = write_replay(args, v, v['orig'])
                ok = confirm(args, replay)
            if ok:
                break
            sys.stderr.write('run %d does not replay\n' % v['k'])
        print('property %s: %s' % (args.pid, v['violation']['cls']))
        print('  ' + v['violation']['msg'].replace('\n', '\n  '))
        print('  seed=%d run=%d, %d shrink steps; %s in a fresh process'
              % (args.seed, v['k'], v['tries'], 'reproduced' if ok else 'NOT reproduced'))
        if ok:
            print('VIOLATION property=%s replay=%s' % (args.pid, replay))
            rc = 1
        else:
            print('ERROR: the failure does not replay; the harness is not deterministic here')
            rc = 2
    elif harness:
        print('ERROR: harness failure in run %d\n%s' % (harness[0]['k'], harness[0]['text']))
        rc = 2
    elif len(done) < len(procs):
        print('ERROR: %d of %d workers ended without a result' % (len(procs) - len(done), len(procs)))
        rc = 2
    for f in known_findings(args.pid):
        if f['class'] in known or f.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (args.pid, f['what']))
    determ = None
    if rc == 0:
        determ = determinism(args, args.determinism_n or (8 if tier == 'quick' else 200), quiet=True)
    wall = time.monotonic() - t0
    write_evidence(args, scn, agg, shapes, inter, samples, wall, t_build, rc, viols, determ)
    if rc == 0:
        print('%s %s: ok, %d runs, %d distinct non-trivial, %d faults fired, %.1f s'
              % (args.pid, tier, agg['runs'], len(shapes), sum(agg['faults'].values()), wall))
    return rc


def write_replay(args, v, plan):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%d-run%d.json' % (args.pid, args.seed, v['k']))
    with open(path, 'w') as f:
        json.dump(dict(property=args.pid, seed=args.seed, run=v['k'], violation=v['violation'],
                       plan=plan, trace=v.get('log', [])), f, indent=1)
        f.write('\n')
    return path


def confirm(args, path):
    p = spawn(args, ['--replay', path, '--nobuild'])
    out = p.communicate()[0].decode()
    return p.returncode == 1 and 'VIOLATION property=%s' % args.pid in out


def do_replay(args):
    scn = load(args.pid)
    if not args.nobuild and not build():
        print('ERROR: the extension modules do not build')
        return 2
    with open(args.replay) as f:
        rec = json.load(f)
    v = prepare(scn)
    r = dict(violation=v) if v else {} if rec['plan'].get('setup') else core.execute(scn, rec['plan'], keep_log=True)
    for line in r.get('log', [])[-60:]:
        print('  ' + line)
    if r.get('harness'):
        print('ERROR: ' + r['harness'])
        return 2
    v = r.get('violation')
    if v:
        print('%s: %s' % (v['cls'], v['msg']))
        if v['cls'] == rec['violation']['cls']:
            print('VIOLATION property=%s replay=%s' % (args.pid, args.replay))
            return 1
        print('a different violation than the recorded %s' % rec['violation']['cls'])
        print('VIOLATION property=%s replay=%s' % (args.pid, args.replay))
        return 1
    print('the recorded failure does not occur')
    return 0


def do_digests(args):
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    silence()
    scn = load(args.pid)
    scn.setup()
    res = {}
    for k in range(args.index, args.runs, args.of):
        r = core.execute(scn, core.make_plan(scn, args.seed, k))
        res[k] = r.get('digest', repr(r.get('violation') or r.get('harness')))
    out.write(json.dumps(res) + '\n')
    return 0


def determinism(args, n, quiet=False):
    """Each of n seeds twice: different interpreters, hash seeds and worker counts."""
    def batch(hashseed, w):
        ps = [spawn(args, ['--digests', '--index', str(i), '--of', str(w), '--runs', str(n), '--seed', str(args.seed)],
                    hashseed) for i in range(w)]
        out = {}
        for p in ps:
            s = p.communicate()[0].decode().strip().splitlines()
            if s:
                out.update(json.loads(s[-1]))
        return out
    a = batch('0', min(8, args.workers))
    b = batch('4242', min(3, args.workers))
    same = sum(1 for k in a if a[k] == b.get(k))
    res = dict(seeds=n, identical=same, hash_seeds=['0', '4242'], worker_counts=[min(8, args.workers), min(3, args.workers)])
    if not quiet:
        print(json.dumps(res))
        for k in a:
            if a[k] != b.get(k):
                print('differs: run', k, a[k][:300], b.get(k)[:300])
    return res


def write_evidence(args, scn, agg, shapes, inter, samples, wall, t_build, rc, viols, determ):
    hours = max(wall - t_build, 1e-6) / 3600.0
    ev = dict(property=args.pid, tier=args.tier, seed=args.seed, level='exploration',
              coverage=dict(evaluations=agg['runs'], distinct_nontrivial=len(shapes), rule=scn.rule,
                            samples=samples[:3], nontrivial_runs=agg['nontrivial'],
                            runs_per_hour=int(agg['runs'] / hours), seeds_per_hour=int(agg['runs'] / hours),
                            simulated_seconds=round(agg['time'], 3), oracle_checks=agg['checks'],
                            events_logged=agg['events'], faults_fired=agg['faults'],
                            faults_total=sum(agg['faults'].values()), operations=agg['ops'],
                            probes=agg['probes'],
                            distinct_interleavings=len(inter),
                            interleaving_measure='hash of the (from,to,yield number) sequence of all thread switches '
                                                 'of a run' if inter else 'no threads in this scenario; distinct '
                                                 'behaviours are distinct_nontrivial',
                            components_real=scn.real, components_stubbed=scn.stub,
                            determinism=determ or {}),
              assumptions=list(scn.assumptions), wall_s=round(wall, 2), violations=len(viols) if rc == 1 else 0)
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, args.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--cap', type=float, default=1e9)
    ap.add_argument('--shrink', type=float, default=45)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--digests', action='store_true')
    ap.add_argument('--index', type=int, default=0)
    ap.add_argument('--of', type=int, default=1)
    ap.add_argument('--replay')
    ap.add_argument('--nobuild', action='store_true')
    ap.add_argument('--trace', type=int)
    ap.add_argument('--determinism', type=int)
    ap.add_argument('--determinism-n', type=int)
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    if args.worker:
        return worker(args)
    if args.digests:
        return do_digests(args)
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    own = 'DST_SCRATCH' not in os.environ
    if own:
        args.scratch = tempfile.mkdtemp(prefix='dst-', dir=base)
        os.environ['DST_SCRATCH'] = args.scratch
    else:
        args.scratch = os.environ['DST_SCRATCH']
    try:
        if args.replay:
            args.replay = os.path.abspath(args.replay)
            return do_replay(args)
        if args.trace is not None:
            scn = load(args.pid)
            scn.setup()
            plan = core.make_plan(scn, args.seed, args.trace)
            print(json.dumps(plan, indent=1))
            r = core.execute(scn, plan, keep_log=True)
            for line in r.pop('log', []):
                print('  ' + line)
            print(json.dumps(r, indent=1))
            return 0
        if args.determinism:
            build()
            determinism(args, args.determinism)
            return 0
        return run_check(args)
    finally:
        if own:
            shutil.rmtree(args.scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
