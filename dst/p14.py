"""P14: a fit leaves the model at the best fit it reports, stays in range, and is not affected by earlier failures."""

import json

from . import piemodel as pm, piehist as ph
from .core import Scenario, Violation
from .p06 import INTERRUPTS, make_exc
from .p10 import PEXC

HOOKS = ['change', 'change', 'use', 'signal', 'signal', 'prior', 'garbage']
DATA = None


def fisher():
    """The quadratic form of chi**2 in (amp, tilt, curv, off): chi2 = p'Ap - 2b'p + c."""
    np = pm.np
    a, b = np.zeros((4, 4)), np.zeros(4)
    for xs, ys, ss in (pm.data(1, 7), pm.data(2, 5)):
        for x, y, s in zip(xs, ys, ss):
            g = np.array([1., x, x * x, 1.]) / s
            a += np.outer(g, g)
            b += g * y / s
    return a, b


class P14(Scenario):
    pid = 'P14'
    quick_runs = 6000
    list_fields = ('attempts',)
    rule = ('A run is a seeded sequence of fits of one model: parameters are given start values, scales and ranges or left where the previous fit put them, '
            'bounds mapped or not, and planned calls of user code fail. Every completed fit is compared bit by bit with the same fit by a fresh model put in the '
            'same state, with a score computed from first principles, with the start and with the analytic optimum. Non-trivial = a fault fired or a range stopped a fit. '
            'Distinct = distinct hash of set-ups, faults and outcomes.')
    real = ['pie.inference_base.fit/optimize', 'pie.realparam', 'pie.gaussian', 'pie.chisqr/maxlike/bayes', 'utils.nrmin.powell']
    stub = ['the user model (hooks, signal, prior)']
    assumptions = ['hooks do not raise the library\'s own ParamRangeError']

    def setup(self):
        pm.setup()
        from . import engines
        engines.setup()

    def gen(self, rng):
        attempts = []
        for _ in range(rng.randrange(1, 6)):
            names = list(pm.NAMES)
            rng.shuffle(names)
            a = dict(vary=[], fix=[], map=rng.choice([None, None, True, False]), fault=None)
            if not attempts or rng.random() < 0.6:
                for n in names[:rng.choice([1, 1, 2, 2, 3])]:
                    if rng.random() < 0.7:
                        lo, hi = -60., 60.
                    else:
                        lo, hi = rng.choice([(-3., 4.), (0., 2.), (-0.5, 1.7), (0.8, 3.)])
                    v = lo + (hi - lo) * rng.uniform(0.45, 0.55) if rng.random() < 0.5 else max(min(rng.uniform(0.9, 1.5), hi - .1), lo + .1)
                    if rng.random() < 0.07:
                        v = rng.choice([lo, hi])
                    a['vary'].append([n, v, rng.choice([0.05, 0.1, 0.3, 1.]), [lo, hi]])
                if rng.random() < 0.5:
                    a['fix'] = [[n, rng.uniform(-1, 1)] for n in names[3:]]
            elif rng.random() < 0.5:
                a['fix'] = [[names[0], rng.uniform(-1., 1.)]]
            if rng.random() < 0.55:
                a['fault'] = [rng.choice(HOOKS), rng.choice([0, 1, 2, 5, 20, 60, 150, 400, 1000]), rng.choice(PEXC)]
            attempts.append(a)
        return dict(cls=rng.choice(sorted(pm.CLASSES)), attempts=attempts)

    def simplify(self, plan):
        for i, a in enumerate(plan['attempts']):
            for k, v in (('fault', None), ('fix', []), ('map', None)):
                if a.get(k):
                    p = json.loads(json.dumps(plan))
                    p['attempts'][i][k] = v
                    yield p
            if len(a['vary']) > 1:
                p = json.loads(json.dumps(plan))
                p['attempts'][i]['vary'] = a['vary'][1:]
                yield p

    def configure(self, m, a):
        for n, v in a['fix']:
            h = getattr(m, n).handler
            if h.bounded and not h.lo <= v <= h.hi:
                v = 0.5 * (h.lo + h.hi)
            getattr(m, n).fix(v)
        for n, v, d, r in a['vary']:
            getattr(m, n).vary(v, d, tuple(r))
        if a['map'] is not None:
            (m.map_bounds if a['map'] else m.unmap_bounds)()

    def clone(self, cls, m, mapped):
        """A fresh model in the same observable state."""
        f = pm.make(cls)
        for h in m.varying_params:
            getattr(f, h.name).vary(float(h.get_value()), h.delta, (h.lo, h.hi))
        for n in pm.NAMES:
            p = getattr(m, n)
            if p.status == ph.real(ph.FIXED) and float(p) != float(getattr(f, n)):
                getattr(f, n).fix(float(p))
        if mapped:
            f.map_bounds()
        return f

    def run(self, plan, sim):
        m = pm.make(plan['cls'])
        other = pm.make(plan['cls'])
        other.amp.vary(.7, .1, (-5., 5.))
        osnap = pm.snapshot(other)
        mapped = False
        for i, a in enumerate(plan['attempts']):
            m.ctl.clear()
            m.ctl.watch = None
            self.configure(m, a)
            if a['map'] is not None:
                mapped = a['map']
            vary = [h.name for h in m.varying_params]
            if not vary:
                continue
            fresh = self.clone(plan['cls'], m, mapped)
            if [h.name for h in fresh.varying_params] != vary:
                raise Violation('wrong-order', 'varying parameters of a fresh model are in order %r, not %r'
                                % ([h.name for h in fresh.varying_params], vary))
            want = self.attempt(fresh)
            start = pm.values(m)
            self.guard(m, start, vary)
            snap = pm.snapshot(m)
            if a['fault']:
                m.ctl.arm[a['fault'][0]] = [a['fault'][1], make_exc(a['fault'][2], i)]
            sim.op('fit-unbounded' if mapped else 'fit')
            got, err = self.attempt(m)
            fired = m.ctl.fired
            m.ctl.clear()
            m.ctl.watch = None
            sim.shape(i, a['fault'], vary, type(err).__name__, a['map'])
            sim.log(i, repr(err), repr(got))
            self.still(m, snap, vary)
            if fired is not None:
                sim.fault(pm.fault_name(a['fault'], INTERRUPTS))
                if not pm.reached(fired, err):
                    raise Violation('wrong-error', 'user code raised %r during a fit, the caller got %r' % (fired, err or got))
                self.inrange(m, vary, 'after a failed fit')
                ph.invariants(m, 'after a fit failed')
                continue
            if err is not None:
                sim.nontrivial = True
                sim.probe('library-' + type(err).__name__)
                if type(want[1]) is not type(err):
                    raise Violation('spurious-error', 'a fit raised %r, the same fit by a fresh model gave %r' % (err, want[1] or want[0]))
                self.legit(m, err, start, mapped)
                continue
            self.compare(sim, m, vary, start, got, want, mapped)
        if pm.snapshot(other) != osnap:
            raise Violation('crosstalk', 'fits changed another model')

    def attempt(self, m):
        try:
            return m.fit(), None
        except BaseException as e:
            return None, e

    def legit(self, m, err, start, mapped):
        """Without faults a fit only fails where a range stops it or powell gives up."""
        ok = [pm.realparam.ParamRangeError]
        from . import engines
        ok.append(engines.nrmin.IterErr)
        names = [h.name for h in m.varying_params]
        deg = 'amp' in names and 'off' in names         # only their sum matters
        if isinstance(err, pm.realparam.ParamRangeError) and all(h.lo == -60. for h in m.varying_params) \
                and all(abs(v) < 6. for v in start.values()) and not deg:
            raise Violation('spurious-error', 'a fit far from its bounds raised %r' % (err,))
        if isinstance(err, engines.nrmin.IterErr) and not mapped and not deg:
            raise Violation('spurious-error', 'a fit of a well behaved problem raised %r' % (err,))
        if mapped and isinstance(err, pm.realparam.ParamRangeError) and \
                not any(start[h.name] + h.delta > h.hi and start[h.name] - h.delta < h.lo for h in m.varying_params):
            raise Violation('spurious-error', 'a fit with mapped bounds raised %r' % (err,))
        if not isinstance(err, tuple(ok)):
            raise Violation('spurious-error', 'a fit raised %r although no user code failed' % (err,))

    def guard(self, m, start, vary):
        fixed = {n: v.hex() for n, v in start.items() if n not in vary}

        def watch(hook, info):
            if hook != 'use':
                return
            self.inrange(m, vary, 'during a fit')
            for n, v in fixed.items():
                if float(getattr(m, n)).hex() != v:
                    raise Violation('fixed-moved', 'fixed parameter %s moved during a fit' % n)
        m.ctl.watch = watch

    def inrange(self, m, vary, when):
        for n in vary:
            h = getattr(m, n).handler
            v = float(h.get_value())
            if not h.lo <= v <= h.hi:
                raise Violation('out-of-range', '%s is %r outside its range (%r, %r) %s' % (n, v, h.lo, h.hi, when))

    def still(self, m, before, vary):
        after = pm.snapshot(m)
        for k, b in before.items():
            a = after[k]
            if k in vary:
                a, b = dict(a), dict(b)
                for x in ('value', 'got'):
                    a.pop(x), b.pop(x)
            if a != b:
                raise Violation('disturbed', 'a fit changed %s from %r to %r' % (k, b, a))

    def compare(self, sim, m, vary, start, got, want, mapped):
        params, score = got
        sim.ok()
        now = pm.values(m)
        if [float(x) for x in params] != [now[n] for n in vary]:
            raise Violation('not-at-fit', 'the fit returned %r for %r but left the model at %r' % ([float(x) for x in params], vary, [now[n] for n in vary]))
        if want[0] is None:
            raise Violation('differs', 'a fit succeeded where a fresh model raised %r' % (want[1],))
        if [float(x).hex() for x in params] != [float(x).hex() for x in want[0][0]] or float(score).hex() != float(want[0][1]).hex():
            raise Violation('differs', 'the fit gave %r %r, the same fit by a fresh model %r %r' % (list(params), score, list(want[0][0]), want[0][1]))
        ref = pm.ref_score(m, now)
        s2 = float(m.score())
        if not pm.close(s2, ref, 1e-8):
            raise Violation('stale-score', 'after the fit the model scores %r, at its parameters it should be %r' % (s2, ref))
        if not pm.close(float(score), ref, 1e-7):
            raise Violation('wrong-extremum', 'the fit reports %r, the score at its parameters is %r' % (score, ref))
        sgn = 1. if 'Chi' in type(m).__name__ else -1.
        s0 = pm.ref_score(m, start)
        if sgn * float(score) > sgn * s0 + 1e-7 * max(1., abs(s0)):
            raise Violation('worse', 'the fit went from %r at the start to %r' % (s0, score))
        gain = self.gain(m, vary, start, sgn, s0)
        if gain > 2.:
            sim.probe('improvable')
            if not sgn * float(score) < sgn * s0 - 1e-3:
                raise Violation('no-progress', 'the fit went from %r to %r although each varying parameter alone can improve it by %r' % (s0, score, gain))
        best = self.optimum(m, vary, now, mapped)
        if best is not None:
            sim.probe('analytic')
            if sgn * float(score) > sgn * best + 0.02 * max(1., abs(best)):
                raise Violation('not-optimal', 'the fit reports %r, the optimum is %r' % (score, best))

    def gain(self, m, vary, start, sgn, s0):
        """What moving any one varying parameter within its range gains at least, from a start inside the ranges."""
        a, b = self.normal(m)
        x = [start[n] for n in pm.NAMES]
        gains = []
        for n in vary:
            h = getattr(m, n).handler
            w = h.hi - h.lo
            if not h.lo + .02 * w < start[n] < h.hi - .02 * w:
                return 0.
            i = pm.NAMES.index(n)
            v = (b[i] - sum(a[i, j] * x[j] for j in range(4) if j != i)) / a[i, i]
            gains.append(sgn * (s0 - pm.ref_score(m, dict(start, **{n: float(min(max(v, h.lo), h.hi))}))))
        return min(gains)

    def normal(self, m):
        a, b = fisher()
        if 'Bayes' in type(m).__name__:
            a = a.copy()
            b = b.copy()
            a[0, 0] += 1 / 9.
            b[0] += 1 / 9.
            a[1, 1] += 1 / 9.
        return a, b

    def optimum(self, m, vary, now, mapped):
        """Score at the analytic optimum in the varying parameters, if well inside the ranges."""
        np = pm.np
        if mapped or 'amp' in vary and 'off' in vary:
            return None                         # mapped bounds have plateaus; amp and off are degenerate
        a, b = self.normal(m)
        v = [pm.NAMES.index(n) for n in vary]
        f = [i for i in range(4) if i not in v]
        x = np.array([now[n] for n in pm.NAMES])
        sol = np.linalg.solve(a[np.ix_(v, v)], b[v] - a[np.ix_(v, f)] @ x[f])
        vals = dict(now)
        for n, s in zip(vary, sol):
            h = getattr(m, n).handler
            w = h.hi - h.lo
            if not h.lo + .1 * w < s < h.hi - .1 * w:
                return None
            vals[n] = float(s)
        return pm.ref_score(m, vals)


SCENARIO = P14()
