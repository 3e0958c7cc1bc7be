"""P12: the model always computes with its current parameters and tells hooks and listeners of every change."""

import json

from . import piemodel as pm, piehist as ph
from .core import Scenario, Violation
from .p06 import INTERRUPTS, make_exc
from .p10 import PEXC


class Listener:
    """An extra object registered with a parameter."""

    def __init__(self, model):
        self.model = model
        self.seen = {}
        self.status = {}
        self.calls = 0

    def _on_param_value_change(self, param):
        self.calls += 1
        self.seen[param.name] = float(getattr(self.model, param.name))

    def _on_param_status_change(self, param, old, new):
        self.calls += 1
        self.status[param.name] = new


class Once:
    """A listener that wants to be told of the next change only."""

    def __init__(self, handler):
        self.handler = handler

    def told(self, *args):
        self.handler.del_listener(self)

    _on_param_value_change = _on_param_status_change = told


class P12(Scenario):
    pid = 'P12'
    quick_runs = 12000
    rule = ('A run is a seeded history of parameter changes, score evaluations, fits and grids on one or two models, with planned failures in the '
            'change hook, the on_use hook, the signal function and the prior. Inside every signal evaluation the table built by on_use is compared with the '
            'current parameters, and every returned score with one computed from first principles. Non-trivial = a fault fired. '
            'Distinct = distinct hash of operations, fault kinds and positions.')
    real = ['pie.realparam', 'pie.param', 'pie.inference_base', 'pie.signalmodel', 'pie.gaussian', 'pie.chisqr/maxlike/bayes', 'utils.nrmin.powell']
    stub = ['the user model (hooks, signal, prior)']
    assumptions = ['hooks do not raise the library\'s own ParamRangeError or NotImplementedError']

    def setup(self):
        pm.setup()
        from . import engines
        engines.setup()

    def gen(self, rng):
        classes = [rng.choice(sorted(pm.CLASSES)) for _ in range(rng.choice([1, 2]))]
        ops = []
        for _ in range(rng.choice([5, 15, 40])):
            r = rng.random()
            if r < 0.35:
                op = dict(op='score', logp=rng.random() < .3)
            elif r < 0.45:
                op = dict(op='pred', which=rng.choice(['d1', 'd2']), f=rng.choice(['log_like', 'chisqr']))
            elif r < 0.5:
                op = dict(op='fit')
            elif r < 0.57:
                op = dict(op='listen', name=rng.choice(pm.NAMES), on=rng.random() < 0.6, once=rng.random() < .3)
            else:
                op = ph.gen_op(rng, 0.02)
            op['m'] = rng.randrange(len(classes))
            if rng.random() < 0.2:
                op['fault'] = [rng.choice(['change', 'use', 'use', 'signal', 'signal', 'prior', 'garbage']), rng.choice([0, 0, 1, 2, 5, 11]), rng.choice(PEXC)]
            ops.append(op)
        return dict(classes=classes, ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            if op.get('fault'):
                p = json.loads(json.dumps(plan))
                del p['ops'][i]['fault']
                yield p

    def run(self, plan, sim):
        models = [pm.make(c) for c in plan['classes']]
        listeners = []
        for m in models:
            self.watch(sim, m)
            listeners.append({n: Listener(m) for n in pm.NAMES})
        on = [set() for _ in models]
        n = 0
        for op in plan['ops']:
            n += 1
            mi = op['m']
            m = models[mi]
            ctl = m.ctl
            k = op['op']
            if k == 'next' and not m.stepping_params:
                continue
            if k == 'fit' and (m.stepping_params and (m.varying_params or len(m.stepping_params) > 2) or len(m.varying_params) > 2):
                continue
            ctl.clear()
            if op.get('fault'):
                ctl.arm[op['fault'][0]] = [op['fault'][1], make_exc(op['fault'][2], n)]
            sim.op(k)
            before = pm.values(m)
            changes = ctl.n.get('change', 0)
            m.__dict__['hits'] = set()
            res = err = None
            if k == 'listen':
                ctl.clear()
                L = listeners[mi][op['name']]
                h = getattr(m, op['name'])
                if op['on']:
                    if op.get('once'):
                        h.add_listener(Once(h.handler))
                        sim.probe('once')
                    h.add_listener(L)
                    on[mi].add(op['name'])
                    L.seen[op['name']] = float(h)
                    L.status[op['name']] = h.status
                else:
                    h.del_listener(L)
                    on[mi].discard(op['name'])
            else:
                try:
                    if k == 'score':
                        res = m.logp() if op.get('logp') and 'Bayes' in type(m).__name__ else m.score()
                    elif k == 'pred':
                        res = getattr(getattr(m, op['which']), op['f'])()
                    elif k == 'fit':
                        res = m.fit()
                    else:
                        ph.do(m, op)
                except BaseException as e:
                    if isinstance(e, Violation):
                        raise
                    err = e
            fired = ctl.fired
            ctl.clear()
            sim.shape(mi, op.get('name'), type(err).__name__, op.get('fault') and op['fault'][0])
            sim.log(n, k, repr(res)[:200], repr(err))
            if fired is not None:
                sim.fault(pm.fault_name(op['fault'], INTERRUPTS))
                if not pm.reached(fired, err):
                    raise Violation('wrong-error', 'the user\'s %s code raised %r in %s, the caller got %r' % (op['fault'][0], fired, k, err or res))
            after = pm.values(m)
            if k in ('score', 'pred') and after != before:
                raise Violation('changed', '%s changed the parameters from %r to %r' % (k, before, after))
            if err is None and (k == 'score' or k == 'fit' and not m.stepping_params and not m.varying_params):
                want = pm.ref_score(m, after)
                sim.ok()
                if not pm.close(float(res), want):
                    raise Violation('stale-score', 'the score is %r, for the current parameters it should be %r' % (float(res), want))
            if k == 'pred' and err is None:
                d = pm.data(*dict(d1=(1, 7), d2=(2, 5))[op['which']])
                chi2 = pm.ref_score(models[mi], after, [d])
                name = type(m).__name__
                c = chi2 if 'Chi' in name else None
                if c is None:
                    c = sum(pm.sq((y - (after['amp'] + after['off']) - after['tilt'] * x - after['curv'] * x * x) / s) for x, y, s in zip(*d))
                want = c if op['f'] == 'chisqr' else -0.5 * c
                sim.ok()
                if not pm.close(float(res), want):
                    raise Violation('stale-score', '%s of %s is %r, for the current parameters it should be %r' % (op['f'], op['which'], float(res), want))
            # every change was announced, with the new value in place
            for nm in pm.NAMES:
                if before[nm] != after[nm] and nm not in m.hits:
                    raise Violation('unannounced', '%s changed %s from %r to %r without running the change hook' % (k, nm, before[nm], after[nm]))
                if nm in m.derived and nm not in m.stale and m.derived[nm] != 2. * after[nm]:
                    raise Violation('unannounced', 'the change hook last saw %s=%r, it is %r' % (nm, m.derived[nm] / 2., after[nm]))
            for nm in pm.NAMES:
                L = listeners[mi][nm]
                if nm in on[mi]:
                    if fired is not None:
                        L.seen[nm], L.status[nm] = after[nm], getattr(m, nm).status
                    elif L.seen[nm] != after[nm] or L.status[nm] != getattr(m, nm).status:
                        raise Violation('unannounced', 'a listener of %s last saw value %r and status %r, they are %r and %r'
                                        % (nm, L.seen[nm], L.status[nm], after[nm], getattr(m, nm).status))
                    L.last = L.calls
                elif L.calls != getattr(L, 'last', 0):
                    raise Violation('listener', 'a removed listener of %s is still notified' % nm)

    def watch(self, sim, m):
        m.__dict__['stale'] = set()
        m.__dict__['hits'] = set()
        m.__dict__.setdefault('derived', {})

        def look(hook, info):
            if hook == 'change':
                m.hits.add(info[0])
                a = m.ctl.arm.get('change')
                if a is not None and a[0] == 0:
                    m.stale.add(info[0])
                else:
                    m.stale.discard(info[0])
            elif hook == 'signal':
                v = pm.values(m)
                want = [v['amp'] + v['off'], v['tilt'], v['curv']]
                sim.ok()
                if m.table != want:
                    raise Violation('stale-use', 'the signal function ran with on_use results for %r, the parameters are %r' % (m.table, want))
        m.ctl.watch = look


SCENARIO = P12()
