"""P10: parameter bookkeeping of a model agrees with its history of changes, also when user hooks fail."""

import json

from . import piemodel as pm, piehist as ph
from .core import Scenario, Violation
from .p06 import EXC, INTERRUPTS, make_exc

PEXC = [e for e in EXC if e not in ('NotImplementedError', 'IterErr')]


class P10(Scenario):
    pid = 'P10'
    quick_runs = 12000
    rule = ('A run is a seeded history of fix/vary/step/range/set/advance operations on one or two models of the same or different class; planned calls '
            'of the user\'s change hook raise. After every operation all lists, statuses, values, step numbers and get_params are compared with a '
            'reference. Non-trivial = a hook failed or an operation was refused. Distinct = distinct hash of operations, outcomes and fault positions.')
    real = ['pie.realparam', 'pie.param', 'pie.inference_base', 'pie.signalmodel', 'pie.containers', 'pie.autoname']
    stub = ['the user model\'s hooks']
    assumptions = ['hooks do not raise the library\'s own ParamRangeError while stepping', 'values reached by stepping carry rounding errors']

    def setup(self):
        pm.setup()
        from . import engines
        engines.setup()

    def gen(self, rng):
        classes = [rng.choice(['Chi', 'ML', 'Bayes', 'VChi']) for _ in range(rng.choice([1, 1, 2, 2]))]
        if len(classes) == 2 and rng.random() < 0.6:
            classes[1] = classes[0]
        ops = []
        for _ in range(rng.choice([4, 12, 30, 60])):
            op = ph.gen_op(rng)
            op['m'] = rng.randrange(len(classes))
            if rng.random() < 0.12:
                op['fault'] = [rng.choice([0, 0, 0, 1, 1, 2, 3]), rng.choice(PEXC)]
            ops.append(op)
        return dict(classes=classes, ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            if op.get('fault'):
                p = json.loads(json.dumps(plan))
                del p['ops'][i]['fault']
                yield p

    def run(self, plan, sim):
        models = [pm.make(c) for c in plan['classes']]
        refs = [ph.Ref() for _ in models]
        for m, r in zip(models, refs):
            ph.compare(m, r, 'after construction')
        n = 0
        for op in plan['ops']:
            m, ref = models[op['m']], refs[op['m']]
            if op['op'] == 'next' and not ref.lists[ph.STEPPING]:
                continue
            n += 1
            sim.op(op['op'])
            others = [(k, pm.snapshot(o)) for k, o in enumerate(models) if o is not m]
            self.step(sim, m, ref, op, n)
            for k, snap in others:
                if pm.snapshot(models[k]) != snap:
                    raise Violation('crosstalk', '%s on one model changed another model' % op['op'])
            sim.ok()
        for m, ref in zip(models, refs):
            ph.report(m, ref)

    def step(self, sim, m, ref, op, n):
        ctl = m.ctl
        ctl.clear()
        if op.get('fault'):
            ctl.arm['change'] = [op['fault'][0], make_exc(op['fault'][1], n)]
        when = 'after operation %d (%s)' % (n, op['op'])
        err = None
        try:
            ph.do(m, op)
        except BaseException as e:
            err = e
        fired = ctl.fired
        ctl.clear()
        sim.shape(op['m'], op.get('name'), type(err).__name__)
        sim.log(op, repr(err))
        if fired is not None:
            sim.fault('interrupt' if op['fault'][1] in INTERRUPTS else 'hook_error')
            if err is not fired:
                raise Violation('wrong-error', 'the user\'s hook raised %r in %s, the caller got %r' % (fired, op['op'], err))
            ph.invariants(m, 'after the change hook failed in ' + op['op'], op.get('name') if op['op'] in ('fix', 'assign') else None)
            if op['op'] not in ('next', 'pnext', 'pprev'):
                ph.do(m, op)
                ref.apply(op)
            m.reset_steps()
            ref.reset()
            ph.compare(m, ref, 'after retrying operation %d (%s), whose hook had failed' % (n, op['op']))
            return
        finished = False
        try:
            finished = ref.apply(op)
            refused = False
        except ph.Reject:
            refused = True
            sim.nontrivial = True
            sim.probe('refused')
        if refused and err is None:
            raise Violation('accepted', '%r was accepted' % (op,))
        if not refused:
            stop = type(err).__name__ == 'StopStepping'
            if bool(finished) != stop:
                raise Violation('wrong-step', 'next_step %s, the reference grid is %sfinished' %
                                ('stopped' if stop else 'did not stop', '' if finished else 'not '))
            if err is not None and not stop:
                raise Violation('refused', '%r raised %r' % (op, err))
        elif not isinstance(err, (pm.realparam.ParamError, ValueError, ZeroDivisionError, RuntimeError)):
            raise Violation('wrong-error', '%r raised %r' % (op, err))
        ph.compare(m, ref, when)


SCENARIO = P10()
