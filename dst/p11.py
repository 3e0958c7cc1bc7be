"""P11: a refused parameter change has no effect at all."""

import json
import math

from . import piemodel as pm, piehist as ph
from .core import Scenario, Violation
from .p06 import INTERRUPTS, make_exc
from .p10 import PEXC

BAD = ['abc', None, [1.], 1j, 'nan', math.nan]


def bad_op(rng):
    """An operation that must be refused in (almost) any state; checked against the reference where it depends on it."""
    name = rng.choice(pm.NAMES)
    k = rng.choice(['fix', 'assign', 'vary', 'vary', 'vary', 'linstep', 'linstep', 'logstep', 'logstep', 'range', 'set_value', 'pnext', 'pprev', 'next_end',
                    'set_params', 'varying_count', 'fit_method', 'fit_novary', 'pfirst', 'plast'])
    return dict(op='bad', kind=k, name=name, bad=rng.random() < .35, a=rng.randrange(12), v=rng.uniform(20, 90) * rng.choice([1, -1]))


class P11(Scenario):
    pid = 'P11'
    quick_runs = 12000
    rule = ('A run is a seeded history of valid parameter operations, some with failing hooks, mixed with operations that must be refused (values out of '
            'range, not numbers, missing ranges or deltas, impossible step grids, operations that do not fit the status); a full snapshot is compared across each refusal '
            'and no hook may have run. Non-trivial = at least one refusal. Distinct = distinct hash of operations, refusals and states.')
    real = ['pie.realparam', 'pie.param', 'pie.inference_base', 'pie.signalmodel']
    stub = ['the user model\'s hooks']
    assumptions = []

    def setup(self):
        pm.setup()
        from . import engines
        engines.setup()

    def gen(self, rng):
        ops = []
        for _ in range(rng.choice([6, 15, 40])):
            if rng.random() < 0.5:
                ops.append(bad_op(rng))
            else:
                op = ph.gen_op(rng, 0.)
                if rng.random() < 0.1:
                    op['fault'] = [rng.choice([0, 0, 1, 2]), rng.choice(PEXC)]
                ops.append(op)
        return dict(cls=rng.choice(['Chi', 'ML', 'Bayes', 'VChi']), ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            if op.get('fault'):
                p = json.loads(json.dumps(plan))
                del p['ops'][i]['fault']
                yield p

    def run(self, plan, sim):
        m = pm.make(plan['cls'])
        ctl = m.ctl
        n = 0
        for op in plan['ops']:
            n += 1
            if op['op'] == 'bad':
                self.refuse(sim, m, op)
                continue
            ctl.clear()
            if op['op'] == 'next' and not m.stepping_params:
                continue
            if op.get('fault'):
                ctl.arm['change'] = [op['fault'][0], make_exc(op['fault'][1], n)]
            sim.op(op['op'])
            before = pm.snapshot(m)
            hits = ctl.n.get('change', 0)
            err = None
            try:
                ph.do(m, op)
            except BaseException as e:
                err = e
            fired = ctl.fired
            if fired is not None:
                sim.fault('interrupt' if op['fault'][1] in INTERRUPTS else 'hook_error')
                if err is not fired:
                    raise Violation('wrong-error', 'the user\'s hook raised %r in %s, the caller got %r' % (fired, op['op'], err))
                ctl.clear()
                m.reset_steps()
            elif err is not None and type(err).__name__ != 'StopStepping':
                self.unchanged(sim, m, before, hits, repr(op), err)
            ctl.clear()
            sim.shape(op.get('name'), type(err).__name__)

    def unchanged(self, sim, m, before, hits, what, err):
        sim.nontrivial = True
        sim.probe('refused')
        sim.ok()
        sim.log(what, repr(err))
        after = pm.snapshot(m)
        if after != before:
            diff = ['%s: %r -> %r' % (k, before[k], after[k]) for k in before if before[k] != after[k]]
            raise Violation('changed', '%s was refused (%r) but changed %s' % (what, err, '; '.join(diff)))
        if m.ctl.n.get('change', 0) != hits:
            raise Violation('hook-ran', '%s was refused (%r) but ran the change hook' % (what, err))

    def refuse(self, sim, m, op):
        k, name, a = op['kind'], op['name'], op['a']
        p = getattr(m, name)
        m.ctl.clear()
        bad = BAD[a % len(BAD)]
        h = p.handler
        lo, hi = (h.lo, h.hi) if h.bounded else (None, None)
        out = (hi + abs(op['v']) if op['v'] > 0 else lo - abs(op['v'])) if h.bounded else None
        st = p.status
        call = None
        if k in ('fix', 'assign', 'set_value'):
            v = bad if a % 2 and bad is not None else out
            if k == 'set_value':
                if st != ph.real(ph.VARYING):
                    v = 1.
                elif v is None:
                    v = 'abc'
                call = lambda: p.set_value(v)
            else:
                if v is None or (isinstance(v, float) and v != v and not h.bounded) or v == 'nan':
                    v = 'abc'
                call = (lambda: p.fix(v)) if k == 'fix' else (lambda: setattr(m, name, v))
        elif k == 'vary' and op.get('bad'):
            call = [lambda: p.vary(start=.5, delta=0., range=(-2., 2.)), lambda: p.vary(start=.5, delta=math.nan, range=(-2., 2.)),
                    lambda: p.vary(delta='abc', range=(-200., 200.)), lambda: p.vary(delta=.3, range=(math.nan, 200.)),
                    lambda: p.vary(delta=.3, range=(-200., math.nan)), lambda: p.vary(delta=-0.)][a % 6]
        elif k == 'vary':
            r = a % 6
            if r == 0:
                call = lambda: p.vary(start=100., delta=0.1, range=(-1., 1.))
            elif r == 1:
                call = lambda: p.vary(start=-100., delta=0.3, range=(4., -7.))
            elif r == 2:
                call = lambda: p.vary(start=math.nan, delta=0.7, range=(-2., 2.))
            elif r == 3:
                call = lambda: p.vary(start='abc', delta=0.7, range=(-2., 2.))
            elif r == 4:
                if h.bounded:
                    call = lambda: p.vary(start=out, delta=0.9)
                else:
                    call = lambda: p.vary(start=1., delta=0.9)
            elif h.delta is None:
                call = lambda: p.vary(start=0.5, range=(-2., 9.))
            elif a < 6:
                call = lambda: p.vary(start=0.5, delta=0.123, range=('a', 'b'))
            else:
                call = lambda: p.vary(start=0.5, delta=0.123, range=('-3', 'b'))
        elif k in ('linstep', 'logstep') and op.get('bad'):
            f = getattr(p, k)
            x, y = (lo, hi) if h.bounded and lo * hi > 0. else (.5, 1.5)
            call = [lambda: f(x, y, 0), lambda: f(x, y, -3), lambda: f(x, y, 2.5), lambda: f(math.nan, y, 4), lambda: f(x, math.nan, 4),
                    lambda: f(x, math.inf, 4)][a % 6]
        elif k in ('linstep', 'logstep'):
            f = getattr(p, k)
            r = a % 6
            if r == 0:
                call = lambda: f(0.5, 1.5, 1 if k == 'linstep' else None)
            elif r == 1:
                call = lambda: f(0.5, 'abc', 4)
            elif r == 2:
                call = lambda: f(0.5, 1.5, 'many')
            elif r == 3 and h.bounded:
                call = lambda: f(out, hi, 5)
            elif r == 4 and h.bounded:
                call = lambda: f(hi, out, 5)
            elif k == 'logstep' and (r == 5 or not h.bounded and a >= 6) and (not h.bounded or lo <= -1. and hi >= 1.):
                x, y = [(-1., 1.), (1., -1.), (0., 1.), (1., 0.), (0., -1.), (-1., 0.), (0., 0.)][int(abs(op['v']) * 100) % 7]
                call = lambda: f(x, y, 5)
            elif not h.bounded:
                call = lambda: f(hi=2., n=3) if r % 2 else f(lo=2., n=3)
            elif k == 'logstep':
                return
            else:
                call = lambda: f([0.], [1.], 5)
        elif k == 'range' and op.get('bad'):
            call = [lambda: p.range(math.nan, 2.), lambda: p.range(-2., math.nan), lambda: p.range((math.nan, 3.)), lambda: p.range((-3., math.nan)),
                    lambda: p.range(math.nan, math.nan), lambda: p.range(1.)][a % 6]
        elif k == 'range':
            r = a % 6
            call = [lambda: p.range('a', 'b'), lambda: p.range(1., 2., 3.), lambda: p.range(), lambda: p.range((1., 'x')),
                    lambda: p.range('2.5', 'abc'), lambda: p.range(('%r' % round(op['v'], 2), 'x'))][r]
        elif k in ('pnext', 'pprev', 'pfirst', 'plast'):
            if st == ph.real(ph.STEPPING):
                if k == 'pnext' and p.step_num == p.steps - 1:
                    call = p.next_step
                elif k == 'pprev' and p.step_num == 0:
                    call = p.prev_step
                else:
                    return
            else:
                call = dict(pnext=p.next_step, pprev=p.prev_step, pfirst=p.first_step, plast=p.last_step)[k]
        elif k == 'set_params':
            pv = m.get_params()
            if a % 3 == 0:
                for n in pm.NAMES:
                    setattr(pv, n, float(getattr(m, n)) + .01)
                if not m.stepping_params:
                    delattr(pv, name)
            else:
                for n in pm.NAMES:
                    hh = getattr(m, n).handler
                    setattr(pv, n, .5 * (hh.lo + hh.hi) if hh.bounded else .123)
                setattr(pv, name, 'abc' if a % 3 == 1 or out is None else out)
            call = lambda: m.set_params(pv)
        elif k == 'varying_count':
            if not hasattr(m, '_set_varying'):
                return
            call = lambda: m._set_varying(*([0.5] * (len(m.varying_params) + 1 + a % 2)))
        elif k == 'fit_method':
            if not m.varying_params or m.stepping_params:
                return
            call = lambda: m.fit(method='no such method')
        elif k == 'fit_novary':
            if m.varying_params:
                return
            call = lambda: m.optimize()
        else:
            return
        sim.op('bad_' + k)
        before = pm.snapshot(m)
        hits = m.ctl.n.get('change', 0)
        err = None
        try:
            call()
        except Exception as e:
            err = e
        what = '%s (variant %d) on %s with status %r' % (k, a, name, st)
        if err is None:
            raise Violation('accepted', what + ' was accepted')
        sim.fault('bad_argument')
        self.unchanged(sim, m, before, hits, what, err)
        sim.shape(k, a % 6, st)


SCENARIO = P11()
