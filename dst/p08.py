"""P08: engine calls running at the same time, nested or in several threads, do not influence each other."""

import json

from . import engines, simthread
from .core import Scenario, Violation
from .p06 import EXC, INTERRUPTS, make_exc


class P08(Scenario):
    pid = 'P08'
    quick_runs = 7500
    hang_s = 60
    list_fields = ('switches', 'tasks')
    rule = ('A run puts 2-4 engine calls, some sharing input arrays, some failing, some starting a further call from inside the user function, '
            'into simulated threads; a seeded schedule preempts them at lines of package code and inside user functions. Non-trivial = at least '
            'one preemption or nested call happened while another call was in progress. Distinct = distinct hash of engines, faults and switch sequence.')
    real = ['deriv.obsinfo (Fortran)', 'integrate.adapt and adapt_vec (Fortran)', 'utils.nrmin', 'grid.*', 'integrate.cub2d', 'f2py callback layer']
    stub = ['the user functions', 'the thread scheduler (one thread runs at a time; preemption at lines and callbacks)']
    assumptions = ['the interpreter lock is held inside compiled code, so calls interleave only at Python lines and callbacks',
                   'each thread uses its own engine objects; input arrays may be shared']

    def setup(self):
        engines.setup()

    def gen(self, rng):
        kinds = engines.KINDS + engines.NOCALL
        if rng.random() < 0.6:
            kinds = rng.sample(kinds, 2)
        njobs = rng.randrange(1, 4)
        jobs = [engines.gen_job(rng, kinds) for _ in range(njobs)]
        for j in jobs:
            if j['kind'] in ('adapt', 'adapt_vec'):
                j['maxfac'] = 5
                j['acc'] = 0.01
        tasks = []
        for _ in range(rng.randrange(2, 5)):
            t = []
            for _ in range(rng.choice([1, 1, 2])):
                op = dict(job=rng.randrange(njobs), fault=None, nest=None)
                if rng.random() < 0.25:
                    op['fault'] = dict(at=rng.choice([0, rng.randrange(10), rng.randrange(100)]), exc=rng.choice(EXC))
                if rng.random() < 0.25:
                    op['nest'] = dict(at=rng.choice([0, rng.randrange(10), rng.randrange(100)]), job=rng.randrange(njobs))
                t.append(op)
            tasks.append(t)
        n = rng.choice([0, 1, 2, 5, 20, 60])
        top = rng.choice([30, 200, 1500, 6000])
        sw = sorted(rng.randrange(1, top) for _ in range(n))
        if rng.random() < 0.3:
            a, step = rng.randrange(1, 50), rng.choice([1, 2, 3, 5, 11])
            sw = [a + step * i for i in range(rng.choice([50, 300]))]
        return dict(jobs=jobs, tasks=tasks, switches=[[s, rng.randrange(4)] for s in sw])

    def simplify(self, plan):
        for ti, t in enumerate(plan['tasks']):
            for oi, op in enumerate(t):
                if len(t) > 1:
                    p = json.loads(json.dumps(plan))
                    del p['tasks'][ti][oi]
                    yield p
                for key in ('nest', 'fault'):
                    if op.get(key):
                        p = json.loads(json.dumps(plan))
                        p['tasks'][ti][oi][key] = None
                        yield p

    def run(self, plan, sim):
        if not plan['tasks']:
            return
        specs = plan['jobs']
        base = []
        shared = []
        for s in specs:
            j = engines.Job(s)
            n = [0]

            def plain(f, args):
                n[0] += 1
                return f(*args)
            base.append((j.run(plain), n[0]))
            shared.append(j.arrays)
            sim.log(s['kind'], base[-1])
        active = [0]

        def attempt(op, depth):
            job = engines.Job(specs[op['job']])
            job.arrays = shared[op['job']]
            want, total = base[op['job']]
            n = [0]
            exc = []
            sim.op(job.kind)

            def around(f, args):
                n[0] += 1
                simthread.yield_point()
                nest = op.get('nest')
                if nest and n[0] == nest['at'] + 1:
                    sim.probe('nested')
                    sim.nontrivial = True
                    attempt(dict(job=nest['job'], fault=None), depth + 1)
                if op['fault'] and n[0] == op['fault']['at'] + 1:
                    sim.fault('interrupt' if op['fault']['exc'] in INTERRUPTS else 'callback_error')
                    exc.append(make_exc(op['fault']['exc'], n[0], job.kind))
                    raise exc[0]
                v = f(*args)
                simthread.yield_point()
                return v

            if active[0]:
                sim.probe('overlapping_calls')
            active[0] += 1
            err = got = None
            try:
                got = job.run(around)
            except (Violation, simthread._Abort):
                raise
            except BaseException as e:
                err = e
            finally:
                active[0] -= 1
            sim.ok()
            if exc:
                if err is not exc[0]:
                    raise Violation('wrong-error', '%s: the user function raised %r, the caller got %r' % (job.kind, exc[0], err or got))
            elif err is not None:
                raise Violation('spurious-error', '%s raised %r only because other calls were in progress' % (job.kind, err))
            elif got != want:
                raise Violation('interference', '%s gives %s while other calls are in progress, %s alone'
                                % (job.kind, json.dumps(got)[:600], json.dumps(want)[:600]))
            elif n[0] != total:
                raise Violation('interference', '%s makes %d evaluations while other calls are in progress, %d alone' % (job.kind, n[0], total))

        def body(ops):
            def f():
                for op in ops:
                    attempt(op, 0)
            return f

        sim.shape(specs and [s['kind'] for s in specs], plan['tasks'])
        sched = simthread.Sched(sim, plan['switches'])
        for ops in plan['tasks']:
            sched.spawn(body(ops))
        try:
            out = sched.run()
        except simthread.Deadlock as e:
            raise Violation('deadlock', str(e))
        for _, e in out:
            if e is not None:
                raise e
        for ji, s in enumerate(specs):
            j = engines.Job(s)
            j.arrays = shared[ji]
            if j.intact():
                raise Violation('array-modified', 'shared array %r was modified' % j.intact())


SCENARIO = P08()
