"""P13: a grid calculation fills every cell with the value at that cell's parameters, whatever failed before."""

import itertools
import json
import math

from . import piemodel as pm, piehist as ph
from .core import Scenario, Violation
from .p06 import INTERRUPTS, make_exc
from .p10 import PEXC

from .p14 import SCENARIO as SCENARIO14

HOOKS = ['change', 'use', 'signal', 'signal', 'signal', 'prior', 'garbage']


class P13(Scenario):
    pid = 'P13'
    quick_runs = 6000
    list_fields = ('attempts', 'steps')
    rule = ('A run sets up a grid over 1-3 stepped parameters (linear or logarithmic) with 0-2 varying ones and runs it several times; attempts are cut off by '
            'failures in user code at planned calls or preceded by manual stepping. Each completed grid is checked cell by cell and compared bit by bit with '
            'the grid of a fresh, never disturbed model. Non-trivial = a fault fired or the model was moved between runs. Distinct = distinct hash of grid, faults and history.')
    real = ['pie.inference_base.do_grid/fit/optimize', 'pie.realparam', 'pie.containers', 'pie.gaussian', 'utils.nrmin.powell']
    stub = ['the user model (hooks, signal, prior)']
    assumptions = ['hooks do not raise the library\'s own ParamRangeError']

    def setup(self):
        pm.setup()
        from . import engines
        engines.setup()

    def gen(self, rng):
        names = list(pm.NAMES)
        rng.shuffle(names)
        nvary = rng.choice([0, 0, 0, 1, 1, 2])
        nstep = rng.choice([1, 2, 2, 3]) if not nvary else rng.choice([1, 1, 2])
        steps = []
        for n in names[:nstep]:
            lo, hi = sorted([rng.uniform(0.1, 0.8), rng.uniform(0.9, 2.5)])
            if rng.random() < 0.25:
                lo, hi = hi, lo
            log = rng.random() < 0.35
            if not log and rng.random() < 0.4:
                lo = -lo
            steps.append([n, 'logstep' if log else 'linstep', lo, hi, rng.choice([2, 3, 4] if nvary else [2, 3, 5, 7])])
        vary = [[n, rng.uniform(0.2, 1.), 0.1] for n in names[nstep:nstep + nvary]]
        attempts = []
        for _ in range(rng.randrange(1, 5)):
            a = dict(fault=None, moves=rng.choice([0, 0, 0, 1, 3]), fixit=None)
            if rng.random() < 0.65:
                a['fault'] = [rng.choice(HOOKS), rng.choice([0, 1, 3, 10, 30, 100, 300]), rng.choice(PEXC)]
            if rng.random() < 0.2:
                a['score'] = True
            a['nlog'] = rng.choice([None, None, 1, 2, 3])
            attempts.append(a)
        return dict(cls=rng.choice(sorted(pm.CLASSES)), steps=steps, vary=vary, attempts=attempts, vargrid=rng.random() < 0.5, unbounded=rng.random() < 0.3)

    def simplify(self, plan):
        for i, a in enumerate(plan['attempts']):
            for k, v in (('fault', None), ('moves', 0)):
                if a.get(k):
                    p = json.loads(json.dumps(plan))
                    p['attempts'][i][k] = v
                    yield p
        if plan['vary']:
            p = json.loads(json.dumps(plan))
            p['vary'] = p['vary'][:-1]
            yield p

    def configure(self, plan, m):
        for n, kind, lo, hi, k in plan['steps']:
            getattr(getattr(m, n), kind)(lo, hi, k)
        self.start(plan, m)
        if plan['unbounded']:
            m.map_bounds()

    def start(self, plan, m):
        for n, v, d in plan['vary']:
            getattr(m, n).vary(v, d, (-60., 60.))

    def run(self, plan, sim):
        if not plan['steps']:
            return
        fresh = pm.make(plan['cls'])
        self.configure(plan, fresh)
        want = fresh.fit(vargrid=plan['vargrid'])
        self.check(sim, plan, fresh, want, 'a fresh model')
        m = pm.make(plan['cls'])
        self.configure(plan, m)
        other = pm.make(plan['cls'])
        self.configure(plan, other)
        osnap = pm.snapshot(other)
        for i, a in enumerate(plan['attempts'] + [dict(fault=None, moves=0)]):
            ctl = m.ctl
            ctl.clear()
            for _ in range(a['moves']):
                sim.nontrivial = True
                try:
                    m.next_step()
                except pm.pie.inference_base.StopStepping:
                    pass
            if a.get('score'):
                m.score()
            self.start(plan, m)
            if a['fault']:
                ctl.arm[a['fault'][0]] = [a['fault'][1], make_exc(a['fault'][2], i)]
            got = err = None
            sim.op('grid')
            try:
                got = m.fit(vargrid=plan['vargrid'], nlog=a.get('nlog'))
            except BaseException as e:
                err = e
            fired = ctl.fired
            ctl.clear()
            sim.shape(i, a, type(err).__name__)
            sim.log(i, repr(err))
            if fired is not None:
                sim.fault(pm.fault_name(a['fault'], INTERRUPTS))
                if not pm.reached(fired, err):
                    raise Violation('wrong-error', 'user code raised %r during a grid calculation, the caller got %r' % (fired, err or got))
                ph.invariants(m, 'after a grid calculation failed')
                continue
            if err is not None:
                raise Violation('spurious-error', 'a grid calculation raised %r although no user code failed' % (err,))
            self.check(sim, plan, m, got, 'attempt %d' % i)
            self.same(sim, plan, got, want, 'attempt %d after %d earlier failures or moves' % (i, i))
        if pm.snapshot(other) != osnap:
            raise Violation('crosstalk', 'grid calculations changed another model')

    def parts(self, plan, res):
        if plan['vargrid'] and plan['vary']:
            if not isinstance(res, tuple) or len(res) != 2:
                raise Violation('wrong-result', 'fit(vargrid=True) returned %r' % (type(res),))
            return res
        if isinstance(res, tuple):
            raise Violation('wrong-result', 'fit returned a tuple without varying grid')
        return res, None

    def same(self, sim, plan, got, want, when):
        for g, w, what in zip(self.parts(plan, got), self.parts(plan, want), ('score', 'parameter')):
            if g is None:
                continue
            sim.ok()
            if pm.np.asarray(g.values).tobytes() != pm.np.asarray(w.values).tobytes():
                bad = pm.np.argwhere(~((g.values == w.values) | (pm.np.isnan(g.values) & pm.np.isnan(w.values))))
                raise Violation('differs', 'the %s grid of %s differs from that of a fresh model at cells %r' % (what, when, bad[:5].tolist()))
            if plan['vary'] and tuple(g.opt_ind) != tuple(w.opt_ind):
                raise Violation('differs', 'the best cell of %s is %r, of a fresh model %r' % (when, g.opt_ind, w.opt_ind))

    def optimum(self, plan, m, vals, vnames):
        if plan['unbounded']:
            return None
        for n in vnames:
            h = getattr(m, n).handler
            if not (h.lo == -60. and h.hi == 60.):
                return None
        return SCENARIO14.optimum(m, vnames, vals, False)

    def check(self, sim, plan, m, res, when):
        grid, vgrid = self.parts(plan, res)
        shape = tuple(s[4] for s in plan['steps'])
        if tuple(grid.values.shape) != shape:
            raise Violation('wrong-shape', 'the grid has shape %r, should be %r' % (grid.values.shape, shape))
        if vgrid is not None and tuple(vgrid.values.shape) != shape + ((len(plan['vary']),) if len(plan['vary']) > 1 else ()):
            raise Violation('wrong-shape', 'the grid of %d best-fit values has shape %r for cells %r' % (len(plan['vary']), vgrid.values.shape, shape))
        refs = []
        for n, kind, lo, hi, k in plan['steps']:
            p = ph.RefParam(n)
            p.step = ('log' if kind == 'logstep' else 'lin', lo, hi, k)
            refs.append(p)
        base = dict(ph.DEFAULT)
        vnames = [v[0] for v in plan['vary']]
        best = None
        chi = 'Chi' in plan['cls']
        for ind in itertools.product(*[range(k) for k in shape]):
            vals = dict(base)
            for p, i in zip(refs, ind):
                vals[p.name] = p.nominal(i)
            v = float(grid.values[ind])
            sim.ok()
            if vnames:
                if v != v:
                    raise Violation('unfilled', 'cell %r of the grid of %s was never filled' % (ind, when))
                start = dict(vals)
                start.update({x[0]: x[1] for x in plan['vary']})
                if vgrid is not None:
                    pv = vgrid.values[ind] if len(vnames) > 1 else [vgrid.values[ind]]
                    vals.update({n: float(x) for n, x in zip(vnames, pv)})
                    w = pm.ref_score(m, vals)
                    if not pm.close(v, w, 1e-7):
                        raise Violation('wrong-cell', 'cell %r of %s holds %r, the score at its own parameters %r is %r' % (ind, when, v, vals, w))
                opt = self.optimum(plan, m, start, vnames)
                if opt is not None and (v - opt if chi else opt - v) > 0.02 * max(1., abs(opt)):
                    raise Violation('not-optimal', 'cell %r of %s holds %r, the optimum there is %r' % (ind, when, v, opt))
                if best is None or (v < best[0] if chi else v > best[0]):
                    best = (v, ind)
            else:
                w = pm.ref_score(m, vals)
                if v != v:
                    raise Violation('unfilled', 'cell %r of the grid of %s was never filled' % (ind, when))
                if not pm.close(v, w, 1e-7):
                    raise Violation('wrong-cell', 'cell %r of %s holds %r, the score there is %r' % (ind, when, v, w))
        if vnames:
            if float(grid.opt_val) != best[0] or float(grid.values[tuple(grid.opt_ind)]) != best[0]:
                raise Violation('wrong-optimum', 'the grid of %s reports its optimum %r at %r, it is %r at %r'
                                % (when, grid.opt_val, grid.opt_ind, best[0], best[1]))
        for g in (grid, vgrid):
            if g is None:
                continue
            text = str(g)
            if len(g.axes) != len(shape) or g.ndim != len(shape) or tuple(g.shape) != tuple(g.values.shape):
                raise Violation('wrong-axes', 'a grid of shape %r has %r axes %r, dimension %r and shape %r' % (g.values.shape, len(g.axes), g.axes, g.ndim, g.shape))
            for ax, s in zip(g.axes, plan['steps']):
                typ = pm.realparam.log_steps if s[1] == 'logstep' else pm.realparam.lin_steps
                if ax[0] != s[0] or float(ax[1]) != s[2] or float(ax[2]) != s[3] or ax[3] != s[4] or ax[4] != typ:
                    raise Violation('wrong-axes', 'axis %r for %r' % (ax, s))
                if s[0] not in text:
                    raise Violation('wrong-axes', 'the grid describes itself as %r, its axes are %r' % (text, plan['steps']))


SCENARIO = P13()
