"""P06: an error or interrupt in a user function reaches the caller unchanged and leaves the engines usable."""

import json

from . import engines
from .core import Scenario, Violation

EXC = ['Custom', 'CustomBase', 'ValueError', 'TypeError', 'RuntimeError', 'ZeroDivisionError', 'OverflowError', 'FloatingPointError',
       'IndexError', 'KeyError', 'AttributeError', 'AssertionError', 'OSError', 'MemoryError', 'KeyboardInterrupt', 'SystemExit',
       'StopIteration', 'GeneratorExit', 'NotImplementedError', 'IterErr']
INTERRUPTS = ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'CustomBase')


def make_exc(name, n, kind=None):
    import builtins
    if kind == 'pie' and name == 'NotImplementedError':
        name = 'Custom'                 # how a model says that it has no such method
    if name == 'Custom':
        base = Exception
    elif name == 'CustomBase':
        base = BaseException
    elif name == 'IterErr':
        base = engines.nrmin.IterErr
    else:
        base = getattr(builtins, name)
    cls = type('Injected' + name, (base,), dict(injected=True))
    return cls('injected %d' % n)


class P06(Scenario):
    pid = 'P06'
    quick_runs = 9000
    rule = ('A run is a seeded sequence of engine calls; planned evaluations of the user function raise one of 20 exception or '
            'interrupt types, return something that is not a number, or start a nested engine call that fails and is caught; '
            'non-trivial = at least one fault fired. Distinct = distinct hash of engine kinds, fault kinds and positions.')
    real = ['deriv.obsinfo (Fortran)', 'integrate.adapt and adapt_vec (Fortran)', 'utils.nrmin', 'grid.grid1d', 'grid.hpdgrid (Fortran)',
            'integrate.cub2d', 'f2py callback layer']
    stub = ['the user functions']
    assumptions = ['user functions are deterministic apart from the injected faults']

    def setup(self):
        engines.setup()

    def gen(self, rng):
        ops = []
        njobs = rng.randrange(1, 4)
        jobs = [engines.gen_job(rng) for _ in range(njobs)]
        for _ in range(rng.randrange(2, 9)):
            op = dict(job=rng.randrange(njobs), fault=None)
            r = rng.random()
            if r < 0.5:
                op['fault'] = dict(kind='raise', at=rng.choice([0, 1, rng.randrange(1 << 16), -1]), exc=rng.choice(EXC))
            elif r < 0.58:
                op['fault'] = dict(kind='badret', at=rng.randrange(1 << 16))
            if rng.random() < 0.3:
                op['nest'] = dict(at=rng.randrange(1 << 16), job=rng.randrange(njobs),
                                  fault=dict(kind='raise', at=rng.randrange(1 << 16), exc=rng.choice(EXC)) if rng.random() < 0.8 else None)
            ops.append(op)
        return dict(jobs=jobs, ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            for key in ('nest', 'fault'):
                if op.get(key):
                    p = json.loads(json.dumps(plan))
                    p['ops'][i][key] = None
                    yield p
            f = op.get('fault')
            if f and f['at'] > 0:
                p = json.loads(json.dumps(plan))
                p['ops'][i]['fault']['at'] = 0
                yield p

    def run(self, plan, sim):
        jobs = [engines.Job(s) for s in plan['jobs']]
        base = []
        for j in jobs:
            calls = []

            def plain(f, args):
                calls.append(engines.canon(args))
                return f(*args)
            res = j.run(plain)
            base.append((res, calls))
            sim.log('base', j.kind, res, len(calls))
        counter = [0]

        def attempt(ji, fault, nest, depth):
            """Run job ji with the planned fault; check everything that is claimed."""
            job = jobs[ji]
            want, calls = base[ji]
            n = len(calls)
            st = dict(n=0, exc=None, bad=False, after=0)
            fat = None if fault is None else (n if fault['at'] == -1 else fault['at'] % n + 1)
            nat = None if not nest else nest['at'] % n + 1
            sim.op(job.kind)

            def around(f, args):
                st['n'] += 1
                k = st['n']
                if st['exc'] is not None or st['bad']:
                    st['after'] += 1
                    if st['after'] > 1000:
                        raise Violation('not-stopped', '%s went on calling the user function after its error' % job.kind)
                    return f(*args)
                if k <= n and engines.canon(args) != calls[k - 1]:
                    raise Violation('different-evaluations', '%s evaluation %d is at another point than in the undisturbed call'
                                    % (job.kind, k))
                if k == nat:
                    sim.probe('nested')
                    attempt(nest['job'], nest['fault'], None, depth + 1)
                if k == fat:
                    if fault['kind'] == 'badret':
                        sim.fault('not_a_number')
                        st['bad'] = True
                        return object()
                    counter[0] += 1
                    st['exc'] = make_exc(fault['exc'], counter[0], job.kind)
                    sim.fault('interrupt' if fault['exc'] in INTERRUPTS else 'callback_error')
                    raise st['exc']
                return f(*args)

            got = err = None
            try:
                got = job.run(around)
            except Violation:
                raise
            except BaseException as e:
                err = e
            sim.ok()
            sim.shape(ji, fat, nat, None if fault is None else fault.get('exc', 'bad'))
            sim.log('attempt', depth, job.kind, fat, nat, got, repr(err))
            if st['exc'] is not None:
                if err is None:
                    raise Violation('swallowed', '%s returned %r although evaluation %d of the user function raised %r'
                                    % (job.kind, got, fat, st['exc']))
                if err is not st['exc']:
                    raise Violation('replaced', '%s raised %r instead of the user function\'s own %r' % (job.kind, err, st['exc']))
            elif st['bad']:
                if err is None and (got is None or got[0] != 'e'):
                    raise Violation('bad-value-accepted', '%s returned %r although the user function returned a non-number'
                                    % (job.kind, got))
            else:
                if err is not None:
                    raise Violation('spurious-error', '%s raised %r with a user function that did not fail' % (job.kind, err))
                if got != want:
                    raise Violation('not-reusable', '%s gives %r after earlier failures, %r before' % (job.kind, got, want))
                if st['n'] != n:
                    raise Violation('not-reusable', '%s made %d evaluations after earlier failures, %d before' % (job.kind, st['n'], n))
            if st['after'] and not st['bad']:
                raise Violation('not-stopped', '%s evaluated the user function %d more times after it failed' % (job.kind, st['after']))

        for op in plan['ops']:
            attempt(op['job'], op['fault'], op.get('nest'), 0)
        for ji in range(len(jobs)):
            attempt(ji, None, None, 0)


SCENARIO = P06()
