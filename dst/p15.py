"""P15: computing the observed information leaves the model at its mode, whatever fails, and depends on nothing but the mode."""

import json

from . import piemodel as pm, piehist as ph
from .core import Scenario, Violation
from .p06 import INTERRUPTS, make_exc
from .p10 import PEXC

HOOKS = ['change', 'change', 'use', 'signal', 'signal', 'prior', 'garbage']


def fisher(m):
    """Normal matrix and vector of the model's present data."""
    np = pm.np
    a, b = np.zeros((4, 4)), np.zeros(4)
    for d in (m.d1, m.d2):
        for x, y, s in zip(d.locns, d.vals, d.sigmas):
            g = np.array([1., x, x * x, 1.]) / s
            a += np.outer(g, g)
            b += g * (y / s)
    return a, b


def stored(m):
    # what the last score left behind (the names are private, and may be others)
    return [float(x).hex() for x in (getattr(m, '_log_like', 0.), getattr(m, '_log_prior', 0.))]


class P15(Scenario):
    pid = 'P15'
    quick_runs = 9000
    list_fields = ('calls',)
    rule = ('A run puts a Bayesian model at its (analytic or fitted) mode and computes the observed information several times with different steps, orders and error '
            'estimates, with planned failures of user code and ranges that stop the stepping. Results are compared with a fresh model bit by bit and with the analytic matrix; the '
            'model must be back at the mode with its score after every call. Non-trivial = a fault fired or a range stopped a call. Distinct = distinct hash of set-up, calls and faults.')
    real = ['pie.bayes.obs_info', 'pie.realparam', 'pie.gaussian', 'deriv.dllsteps/obsinfo (Fortran)', 'utils.nrmin.powell']
    stub = ['the user model (hooks, signal, prior)']
    assumptions = ['hooks do not raise the library\'s own ParamRangeError', 'a change hook does not fail while the model is being put back']

    def setup(self):
        pm.setup()
        from . import engines
        engines.setup()

    def gen(self, rng):
        names = list(pm.NAMES)
        rng.shuffle(names)
        vary = []
        for n in names[:rng.choice([1, 2, 2, 3])]:
            if n == 'off' and any(v[0] == 'amp' for v in vary):
                continue
            vary.append([n, rng.choice([.05, .1, .3, 1.]), rng.choice([60., 60., 60., 0.4])])
        calls = []
        for _ in range(rng.randrange(1, 6)):
            c = dict(dlogp=rng.choice([1., 1., .5, 2.]), n=rng.choice([3, 3, 1, 2, 5]), err=rng.random() < .5, steps=None, fault=None)
            if rng.random() < .4:
                c['steps'] = [rng.choice([.02, .1, .5]) for _ in vary]
                c['aslist'] = rng.random() < .5
            if rng.random() < .6:
                c['fault'] = [rng.choice(HOOKS), rng.choice([0, 1, 2, 5, 20, 60, 150, 300]), rng.choice(PEXC)]
            if rng.random() < .2:
                c['score'] = True
            if rng.random() < .25:              # new data, or another value of a fixed parameter, and the mode that belongs to it
                c['event'] = ['sim', rng.randrange(1000)] if rng.random() < .6 else ['fix', round(rng.uniform(-1., 1.), 3)]
            calls.append(c)
        return dict(cls=rng.choice(['Bayes', 'VBayes']), vary=vary, calls=calls, fit=rng.random() < .3)

    def simplify(self, plan):
        for i, c in enumerate(plan['calls']):
            for k in ('fault', 'steps', 'score', 'event'):
                if c.get(k):
                    p = json.loads(json.dumps(plan))
                    p['calls'][i][k] = None
                    yield p
        if len(plan['vary']) > 1:
            p = json.loads(json.dumps(plan))
            p['vary'] = p['vary'][1:]
            for c in p['calls']:
                if c['steps']:
                    c['steps'] = c['steps'][1:]
            yield p

    def place(self, plan, m):
        np = pm.np
        a, b = fisher(m)
        a[0, 0] += 1 / 9.
        b[0] += 1 / 9.
        a[1, 1] += 1 / 9.
        v = [pm.NAMES.index(x[0]) for x in plan['vary']]
        f = [i for i in range(4) if i not in v]
        x = np.array([pm.values(m)[n] for n in pm.NAMES])
        info = a[np.ix_(v, v)]
        mode = np.linalg.solve(info, b[v] - a[np.ix_(v, f)] @ x[f])
        for (n, d, w), val in zip(plan['vary'], mode):
            getattr(m, n).vary(float(val), d, (float(val) - w, float(val) + 1.2 * w))
        if plan['fit']:
            try:
                m.fit()
            except pm.realparam.ParamRangeError:
                for (n, d, w), val in zip(plan['vary'], mode):
                    getattr(m, n).vary(float(val))
        m.score()
        return info

    def happen(self, plan, m, e):
        if e[0] == 'sim':
            pm.np.random.seed(e[1])
            m.d1.sim()
            m.d2.sim()
        else:
            names = [n for n in pm.NAMES if n not in [v[0] for v in plan['vary']]]
            getattr(m, names[-1]).fix(e[1])
        return self.place(plan, m)

    def call(self, m, c):
        kw = dict(dlogp=c['dlogp'], n=c['n'], err=c['err'])
        steps = None
        if c['steps']:
            steps = list(c['steps']) if c.get('aslist') else pm.np.array(c['steps'])
            kw['steps'] = steps
        try:
            got, err = m.obs_info(**kw), None
        except BaseException as e:
            got, err = None, e
        if steps is not None and list(steps) != c['steps']:
            raise Violation('steps-changed', 'obs_info changed the caller\'s steps from %r to %r' % (c['steps'], list(steps)))
        return got, err

    def flat(self, got):
        parts = got if isinstance(got, tuple) else (got,)
        return [pm.np.asarray(p).tobytes() for p in parts]

    def run(self, plan, sim):
        if not plan['vary']:
            return
        m = pm.make(plan['cls'])
        info = self.place(plan, m)
        mode = pm.snapshot(m)
        like = stored(m)
        nv = len(plan['vary'])
        events = []
        for i, c in enumerate(plan['calls']):
            fresh = pm.make(plan['cls'])
            self.place(plan, fresh)
            for e in events + ([c['event']] if c.get('event') else []):
                self.happen(plan, fresh, e)
            if c['steps']:
                # with steps given, the parameters' own scales have no part in it
                for n, d, w in plan['vary']:
                    getattr(fresh, n).vary(delta=.3 * d)
                fresh.score()
            n0 = fresh.ctl.n.get('change', 0)
            want, werr = self.call(fresh, c)
            nchange = fresh.ctl.n['change'] - n0
            m.ctl.clear()
            if c.get('event'):
                events.append(c['event'])
                sim.op('event-' + c['event'][0])
                info = self.happen(plan, m, c['event'])
                mode = pm.snapshot(m)
                like = stored(m)
            if c.get('score'):
                m.score()
            if c['fault']:
                if c['fault'][0] == 'change' and c['fault'][1] >= nchange - nv:
                    continue
                m.ctl.arm[c['fault'][0]] = [c['fault'][1], make_exc(c['fault'][2], i)]
            sim.op('obs_info')
            got, err = self.call(m, c)
            fired = m.ctl.fired
            m.ctl.clear()
            sim.shape(c, type(err).__name__)
            sim.log(i, repr(err), repr(got))
            sim.ok()
            when = 'after obs_info %s' % ('failed with %r' % err if err is not None else 'succeeded')
            now = pm.snapshot(m)
            if now != mode:
                diff = ['%s: %r -> %r' % (k, mode[k], now[k]) for k in mode if mode[k] != now[k]]
                raise Violation('moved', 'the model has moved from its mode %s: %s' % (when, '; '.join(diff)))
            if stored(m) != like:
                raise Violation('stale', 'the stored log likelihood and prior have changed %s' % when)
            if float(m.score()).hex() != float(fresh.score()).hex():
                raise Violation('score', 'the model no longer scores as a fresh one at its mode %s' % when)
            if fired is not None:
                sim.fault(pm.fault_name(c['fault'], INTERRUPTS))
                if not pm.reached(fired, err):
                    raise Violation('wrong-error', 'user code raised %r during obs_info, the caller got %r' % (fired, err or got))
                ph.invariants(m, when)
                continue
            if type(err) is not type(werr):
                raise Violation('differs', 'obs_info gave %r, by a fresh model %r' % (err or got, werr or want))
            if err is not None:
                sim.nontrivial = True
                sim.probe('library-' + type(err).__name__)
                if not isinstance(err, (pm.realparam.ParamRangeError, RuntimeError, ValueError)):
                    raise Violation('spurious-error', 'obs_info raised %r' % (err,))
                if not plan['fit'] and all(v[2] == 60. for v in plan['vary']):
                    raise Violation('spurious-error', 'obs_info at the exact mode, far from bounds, raised %r' % (err,))
                continue
            if self.flat(got) != self.flat(want):
                raise Violation('differs', 'obs_info gave %r, by a fresh model %r' % (got, want))
            mat = got[0] if c['err'] else got
            if isinstance(got, tuple) != c['err']:
                raise Violation('wrong-result', 'obs_info(err=%r) returned %r' % (c['err'], type(got)))
            mat = pm.np.asarray(mat)
            scale = pm.np.sqrt(pm.np.outer(pm.np.diag(info), pm.np.diag(info)))
            if not (abs(mat - info) <= 1e-5 * scale).all():
                raise Violation('wrong-matrix', 'obs_info gave %r, the matrix is %r' % (mat.tolist(), info.tolist()))


SCENARIO = P15()
