"""P07: caller's arrays, and results handed out earlier, are never modified by the engines."""

import json

from . import engines
from .core import Scenario, Violation
from .p06 import EXC, INTERRUPTS, make_exc


class P07(Scenario):
    pid = 'P07'
    quick_runs = 9000
    rule = ('A run is a seeded sequence of engine calls with the caller\'s arrays in several memory layouts (contiguous, strided view, '
            'read-only, list), watched at every evaluation of the user function and after every return or failure; planned '
            'evaluations raise. Non-trivial = an evaluation or failure point was watched with at least one caller array. '
            'Distinct = distinct hash of engines, layouts, fault kinds and positions.')
    real = ['deriv.obsinfo (Fortran)', 'integrate.adapt and adapt_vec (Fortran)', 'utils.nrmin', 'grid.hpd', 'integrate.cub2d', 'f2py argument layer']
    stub = ['the user functions']
    assumptions = ['user functions do not write into their own arguments', 'objects that keep a reference to a caller\'s array are not said to copy it']

    def setup(self):
        engines.setup()

    KINDS = ['dllsteps', 'obsinfo', 'adapt', 'adapt_vec', 'linmin', 'powell', 'powell', 'cub2d', 'rect', 'ecf', 'hpd1d', 'hpd2d', 'onoff', 'pie', 'pie', 'hpdgrid1d', 'hpdgrid2d', 'grid1d']

    def gen(self, rng):
        njobs = rng.randrange(1, 4)
        jobs = [engines.gen_job(rng, self.KINDS) for _ in range(njobs)]
        for j in jobs:
            if j['kind'] == 'pie' and rng.random() < 0.4:
                j['what'] = 'sim'
        ops = []
        for _ in range(rng.randrange(1, 8)):
            op = dict(job=rng.randrange(njobs), fault=None)
            if rng.random() < 0.4:
                op['fault'] = dict(at=rng.choice([0, 1, 2, rng.randrange(60), rng.randrange(400)]), exc=rng.choice(EXC))
            if rng.random() < 0.2:
                op['nest'] = dict(at=rng.randrange(40), job=rng.randrange(njobs))
            ops.append(op)
        return dict(jobs=jobs, ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            for key in ('nest', 'fault'):
                if op.get(key):
                    p = json.loads(json.dumps(plan))
                    p['ops'][i][key] = None
                    yield p
        for i, j in enumerate(plan['jobs']):
            if j['layout'] != 'c':
                p = json.loads(json.dumps(plan))
                p['jobs'][i]['layout'] = 'c'
                yield p

    def run(self, plan, sim):
        jobs = [engines.Job(s) for s in plan['jobs']]
        results = []

        def look(when):
            for j in jobs:
                name = j.intact()
                sim.ok()
                if j.arrays:
                    sim.nontrivial = True
                if name:
                    raise Violation('array-modified', 'the caller\'s array %r given to %s differs %s' % (name, j.kind, when))
            for kind, raw, c in results:
                if engines.canon(raw) != c:
                    raise Violation('result-modified', 'a result returned earlier by %s differs %s' % (kind, when))

        def attempt(op, depth):
            job = jobs[op['job']]
            n = [0]
            exc = []

            def around(f, args):
                n[0] += 1
                if depth == 0 or n[0] % 7 == 1:
                    look('during evaluation %d of %s' % (n[0], job.kind))
                nest = op.get('nest')
                if nest and depth == 0 and n[0] == nest['at'] + 1:
                    sim.probe('nested')
                    attempt(dict(job=nest['job'], fault=None), 1)
                if op['fault'] and n[0] == op['fault']['at'] + 1:
                    sim.fault('interrupt' if op['fault']['exc'] in INTERRUPTS else 'callback_error')
                    exc.append(make_exc(op['fault']['exc'], n[0], job.kind))
                    raise exc[0]
                return f(*args)

            sim.op(job.kind)
            sim.shape(job.spec['layout'], op['fault'], op.get('nest'))
            try:
                res = job.run(around)
            except Violation:
                raise
            except BaseException as e:
                if not exc or e is not exc[0]:
                    raise
                look('after %s failed at evaluation %d' % (job.kind, n[0]))
                return
            look('after %s returned' % job.kind)
            sim.log(job.kind, res)
            if res[0] != 'e':
                results.append((job.kind, job.raw, res))

        for op in plan['ops']:
            attempt(op, 0)


SCENARIO = P07()
