"""P16: simulated data are right, and stay private to the model instance that simulated them."""

import gc
import json

from . import piemodel as pm
from .core import Scenario, Violation
from .p06 import INTERRUPTS, make_exc
from .p10 import PEXC

HOOKS = ['change', 'use', 'signal', 'signal', 'garbage', 'garbage', 'rvs']
CL = {}
SOURCE = {}


class Noise:
    """The library's noise source, failing at a planned draw."""

    def __init__(self, real):
        self.real = real
        self.ctl = None

    def __getattr__(self, name):
        return getattr(self.real, name)

    def rvs(self, *args, **kwds):
        if self.ctl is not None:
            self.ctl.hit('rvs')
        return self.real.rvs(*args, **kwds)


def data2(n):
    import random
    r = random.Random(77)
    xy = [[r.uniform(-1, 1), r.uniform(0, 2)] for _ in range(n)]
    return xy, [r.uniform(0, 2) for _ in range(n)], [r.uniform(.1, .4) for _ in range(n)]


class P16(Scenario):
    pid = 'P16'
    quick_runs = 12000
    rule = ('A run is a seeded history over 2-3 model instances (same or different class, 1-d or 2-d locations, floating or integer data, three ways of giving the data) of '
            'simulating all, one or additional data, refused simulations, parameter changes, scores, foreign draws from the random stream and changes to arrays the caller passed in; planned calls of user code fail. '
            'After every operation all data of all instances, the original arrays and every score are compared with a reference. Non-trivial = a fault fired or a call was refused. '
            'Distinct = distinct hash of operations, faults and outcomes.')
    real = ['pie.gaussian', 'pie.predictor', 'pie.signalmodel', 'pie.chisqr/maxlike/bayes', 'scipy.stats.norm']
    stub = ['the user model (hooks, signal, prior)', 'the random stream is numpy.random with a seed from the plan']
    assumptions = ['simulated noise is drawn from numpy.random']

    def setup(self):
        pm.setup()
        from . import engines
        engines.setup()
        gc.freeze()
        np = pm.np
        import importlib
        gm = importlib.import_module('inference.pie.gaussian')
        if hasattr(getattr(gm, 'stdnorm', None), 'rvs') and not isinstance(gm.stdnorm, Noise):
            gm.stdnorm = Noise(gm.stdnorm)
        self.noise = getattr(gm, 'stdnorm', None)
        from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference, MaxLikeInference

        def keep(name, *arrays):
            SOURCE[name] = (arrays, [repr(np.asarray(a).tolist()) for a in arrays])
            return arrays

        d1, d2 = pm.data(1, 7), pm.data(2, 5)
        table = np.array(d1).T.copy()
        rows = [list(r) for r in zip(*d2)]

        class TPreds(PredictorSet):
            d1 = SampledGaussian(*keep('table', table))
            d2 = SampledGaussian(*keep('rows', rows))

        class IPreds(PredictorSet):
            d1 = SampledGaussian(*keep('int', np.arange(5), np.array([1, 3, 2, 5, 4]), np.array([1, 2, 1, 1, 2])))

        class OPreds(PredictorSet):
            d1 = SampledGaussian(*keep('one', np.array([.7]), np.array([1.9]), np.array([.3])))

        class PPreds(PredictorSet):
            d1 = SampledGaussian(*keep('plane', *[np.array(v) for v in data2(6)]))

        for base in pm.CLASSES['Chi'].__bases__:
            if issubclass(base, SignalModel):
                Sig = base
        for base in pm.CLASSES['VChi'].__bases__:
            if issubclass(base, SignalModel):
                VecSig = base

        class Plane(SignalModel):
            amp = RealParam(1.)
            tilt = RealParam(.5)
            curv = RealParam(-.1)
            off = RealParam(.2)
            on_param_change = Sig.__dict__['on_param_change']
            on_use = Sig.__dict__['on_use']

            def signal(self, x, y):
                self.ctl.hit('signal', x, y)
                t = self.table
                return self.ctl.give(t[0] + t[1] * x + t[2] * y)

        class TChi(ChisqrInference, Sig, TPreds):
            pass

        class VTML(MaxLikeInference, VecSig, TPreds):
            pass

        class IChi(ChisqrInference, Sig, IPreds):
            pass

        class VIChi(ChisqrInference, VecSig, IPreds):
            pass

        class OneChi(ChisqrInference, Sig, OPreds):
            pass

        class PChi(ChisqrInference, Plane, PPreds):
            pass

        class PML(MaxLikeInference, Plane, PPreds):
            pass
        for c in (TChi, VTML, IChi, VIChi, PChi, PML, OneChi):
            pm.CLASSES[c.__name__] = c
        CL.update(Chi=('d1', 'd2'), ML=('d1', 'd2'), VBayes=('d1', 'd2'), TChi=('d1', 'd2'), VTML=('d1', 'd2'), IChi=('d1',), VIChi=('d1',), OneChi=('d1',), PChi=('d1',), PML=('d1',))

    def original(self, cls):
        if cls[0] == 'P':
            return dict(d1=[list(v) for v in data2(6)])
        if cls == 'OneChi':
            return dict(d1=[[.7], [1.9], [.3]])
        if 'I' in cls:
            return dict(d1=[[0., 1., 2., 3., 4.], [1., 3., 2., 5., 4.], [1., 2., 1., 1., 2.]])
        return dict(d1=[list(v) for v in pm.data(1, 7)], d2=[list(v) for v in pm.data(2, 5)])

    def gen(self, rng):
        if not CL:
            self.setup()
        classes = [rng.choice(sorted(CL)) for _ in range(rng.choice([2, 2, 3]))]
        if rng.random() < .7:
            classes[1] = classes[0]
        ops = []
        for _ in range(rng.choice([4, 10, 25])):
            m = rng.randrange(len(classes))
            cls = classes[m]
            loc = (lambda: [rng.uniform(-1, 1), rng.uniform(0, 2)]) if cls[0] == 'P' else (lambda: rng.uniform(-2, 2))
            r = rng.random()
            op = dict(m=m, d=rng.choice(CL[cls]), fault=None, arr=rng.random() < .6)
            if r < .3:
                op['op'] = 'sim'
                op['kind'] = rng.choice(['none', 'none', 'locns', 'sigmas', 'both', 'badlocns', 'badsigmas', 'badboth'])
                op['locns'] = [loc() for _ in range(12)]
                op['sigmas'] = [rng.uniform(.1, .6) for _ in range(12)]
                op['n'] = rng.randrange(1, 12)
            elif r < .55:
                op.update(op='sim1', n=rng.randrange(-1, 9), locn=loc() if rng.random() < .5 else None, sigma=rng.uniform(.1, .6) if rng.random() < .5 else None)
            elif r < .7:
                op.update(op='add', n=rng.choice([0, 1, 1, 2, 3]), bad=rng.random() < .15, one=rng.random() < .4, half=rng.choice([None] * 6 + ['locn', 'sigma', 'locns', 'sigmas']))
                op['locns'] = [loc() for _ in range(4)]
                op['sigmas'] = [rng.uniform(.1, .6) for _ in range(4)]
            elif r < .8:
                op.update(op='set', name=rng.choice(pm.NAMES), v=rng.uniform(-2, 2))
            elif r < .85:
                op.update(op='draw', n=rng.randrange(1, 4))
            elif r < .9:
                op.update(op='clobber')
            elif r < .93:
                op.update(op='new')
            elif r < .95:
                op.update(op='define', n=[rng.randrange(1, 4) for _ in range(3)])
            else:
                op.update(op='score')
            if rng.random() < .25:
                op['fault'] = [rng.choice(HOOKS), rng.choice([0, 0, 1, 3, 6]), rng.choice(PEXC)]
            ops.append(op)
        return dict(classes=classes, ops=ops, seed=rng.randrange(1 << 30))

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            if op.get('fault'):
                p = json.loads(json.dumps(plan))
                p['ops'][i]['fault'] = None
                yield p

    # -- reference

    def pred(self, cls, vals, x):
        t0 = vals['amp'] + vals['off']
        if cls[0] == 'P':
            return t0 + vals['tilt'] * x[0] + vals['curv'] * x[1]
        return t0 + vals['tilt'] * x + vals['curv'] * x * x

    def score(self, cls, vals, ref):
        chi2 = sum(((y - self.pred(cls, vals, x)) / s) ** 2 for xs, ys, ss in ref.values() for x, y, s in zip(xs, ys, ss))
        if 'Chi' in cls:
            return chi2
        if 'ML' in cls:
            return -.5 * chi2
        return -.5 * chi2 - .5 * pm.sq((vals['amp'] - 1.) / 3.) - .5 * pm.sq(vals['tilt'] / 3.)

    def compare(self, sim, m, cls, ref, when):
        np = pm.np
        for d, (xs, ys, ss) in ref.items():
            h = getattr(m, d)
            sim.ok()
            for what, got, want in (('locations', h.locns, xs), ('sigmas', h.sigmas, ss), ('values', h.vals, ys)):
                got = np.asarray(got, float)
                want = np.asarray(want, float)
                if got.shape != want.shape or not (abs(got - want) <= 1e-12 * np.maximum(1., abs(want))).all():
                    raise Violation('wrong-' + what, '%s of %s of model %s should be %r, are %r %s' % (what, d, cls, want.tolist(), got.tolist(), when))
            if h.ndata != len(ys):
                raise Violation('wrong-ndata', '%s says it has %r data, holds %d %s' % (d, h.ndata, len(ys), when))

    def sources(self, when):
        for name, (arrays, reps) in SOURCE.items():
            if [repr(pm.np.asarray(a).tolist()) for a in arrays] != reps:
                raise Violation('original-changed', 'the original %s data have changed %s' % (name, when))

    def run(self, plan, sim):
        np = pm.np
        np.random.seed(plan['seed'])
        mine = np.random.RandomState(plan['seed'])
        models = [pm.make(c) for c in plan['classes']]
        refs = [self.original(c) for c in plan['classes']]
        vals = [pm.values(m) for m in models]
        passed = []
        for i, op in enumerate(plan['ops']):
            k = op['m']
            m, cls, ref = models[k], plan['classes'][k], refs[k]
            if op['op'] == 'new':
                # the old instance is really gone, and new ones may take its place in memory
                models[k] = m = h = call = None
                gc.collect()
                fresh = [pm.make(cls) for _ in range(40)]
                refs[k] = self.original(cls)
                for m in fresh:
                    self.compare(sim, m, cls, refs[k], 'in a new instance')
                models[k] = m
                vals[k] = pm.values(m)
                sim.op('new')
                sim.shape('new', k)
                continue
            h = getattr(m, op['d'])
            xs, ys, ss = ref[op['d']]
            n = len(ys)
            wrap = (lambda v: np.array(v)) if op['arr'] else (lambda v: list(v))
            call, refuse = None, False
            m.ctl.clear()
            new = None                          # locns, sigmas, indices to simulate
            if op['op'] == 'sim':
                kind = op['kind']
                kw = {}
                nn = n
                if kind == 'both':
                    nn = op['n']
                if kind in ('locns', 'both', 'badlocns', 'badboth'):
                    l = op['locns'][:nn] if len(op['locns']) >= nn else xs
                    kw['locns'] = wrap(l if kind[:3] != 'bad' else l[:-1])
                if kind in ('sigmas', 'both', 'badsigmas', 'badboth'):
                    s = op['sigmas'][:nn] if len(op['sigmas']) >= nn else ss
                    kw['sigmas'] = wrap(s if kind != 'badsigmas' else s[:-1])
                refuse = kind[:3] == 'bad'
                if not refuse:
                    new = ([self.loc(cls, x) for x in kw.get('locns', xs)], [float(s) for s in kw.get('sigmas', ss)], None)
                passed += [v for v in kw.values()]
                call = lambda: h.sim(**kw)
            elif op['op'] == 'sim1':
                j = op['n']
                refuse = j >= n or j < -n
                call = lambda: h.sim1(j, op['locn'], op['sigma'])
                if not refuse:
                    nx, ns = list(xs), list(ss)
                    if op['locn'] is not None:
                        nx[j] = op['locn']
                    if op['sigma'] is not None:
                        ns[j] = op['sigma']
                    new = (nx, ns, [j])
            elif op['op'] == 'add':
                l, s = op['locns'][:op['n']], op['sigmas'][:op['n']]
                if op['n'] == 0 and cls[0] == 'P':
                    continue
                if op['half']:
                    a = dict(locn=op['locns'][0], sigma=op['sigmas'][0], locns=wrap(l), sigmas=wrap(s))[op['half']]
                    refuse = True
                    call = lambda: h.add_sim(**{op['half']: a})
                elif op['bad']:
                    s = op['sigmas'][:op['n'] + 1]
                    refuse = True
                if op['half']:
                    pass
                elif op['one'] and len(l) == 1 and not op['bad']:
                    call = lambda: h.add_sim(l[0], s[0])
                else:
                    a, b = wrap(l), wrap(s)
                    passed += [a, b]
                    call = lambda: h.add_sim(locns=a, sigmas=b)
                if not refuse:
                    new = (xs + l, ss + s, list(range(n, n + len(l))))
            elif op['op'] == 'define':
                # three arrays of unequal lengths are no data set
                refuse = len(set(op['n'])) > 1
                call = lambda: pm.pie.SampledGaussian(*[np.arange(1., q + 1.) for q in op['n']])
            elif op['op'] == 'set':
                call = lambda: setattr(m, op['name'], op['v'])
            elif op['op'] == 'draw':
                for _ in range(op['n']):
                    if np.random.random_sample() != mine.random_sample():
                        raise Violation('wrong-stream', 'the random stream is not where the simulations should have left it (before operation %d)' % i)
                continue
            elif op['op'] == 'clobber':
                for a in passed:
                    for q in range(len(a)):
                        a[q] = a[q] * 0 if isinstance(a, np.ndarray) else 99.
                passed = []
            else:
                call = m.score
            if call is not None:
                if op['fault']:
                    m.ctl.arm[op['fault'][0]] = [op['fault'][1], make_exc(op['fault'][2], i)]
                if isinstance(self.noise, Noise):
                    self.noise.ctl = m.ctl
                sim.op(op['op'])
                got = err = None
                try:
                    got = call()
                except BaseException as e:
                    err = e
                fired = m.ctl.fired
                m.ctl.clear()
                if fired is not None:
                    sim.fault(pm.fault_name(op['fault'], INTERRUPTS))
                gave = fired is pm.GARBAGE
                sim.shape(op['op'], op.get('kind'), k, op['d'], op['fault'], type(err).__name__)
                sim.log(i, op['op'], repr(err))
                if fired is not None and not gave:
                    if err is not fired:
                        raise Violation('wrong-error', 'user code raised %r during %s, the caller got %r' % (fired, op['op'], err or got))
                    vals[k] = pm.values(m)
                elif gave and err is not None:
                    # a prediction that is no number: refused, whatever was drawn
                    mine.set_state(np.random.get_state())
                elif gave and op['op'] == 'score':
                    raise Violation('accepted', 'the score is %r although the signal function returned None' % (got,))
                elif refuse:
                    sim.nontrivial = True
                    if err is None:
                        raise Violation('accepted', '%s %r with unusable arguments was accepted' % (op['op'], op.get('kind')))
                elif err is not None:
                    raise Violation('spurious-error', '%s raised %r although nothing failed' % (op['op'], err))
                elif new is not None:
                    nx, ns, idx = new
                    if idx is None:
                        z = mine.standard_normal(len(nx))
                        ny = [self.pred(cls, vals[k], x) + s * float(e) for x, s, e in zip(nx, ns, z)]
                    else:
                        ny = list(ys)
                        if len(nx) > n:
                            ny += [None] * (len(nx) - n)
                        for j in idx:
                            ny[j] = self.pred(cls, vals[k], nx[j]) + ns[j] * float(mine.standard_normal())
                    ref[op['d']] = [list(nx), ny, list(ns)]
                elif op['op'] == 'set':
                    vals[k][op['name']] = op['v']
                elif op['op'] == 'score':
                    want = self.score(cls, vals[k], ref)
                    sim.ok()
                    if not pm.close(float(got), want, 1e-9):
                        raise Violation('wrong-score', 'model %s scores %r, its data and parameters give %r' % (cls, got, want))
            when = 'after %s of model %d' % (op['op'], k)
            for m2, c2, r2 in zip(models, plan['classes'], refs):
                self.compare(sim, m2, c2, r2, when)
            self.sources(when)
        for k, m in enumerate(models):
            m.ctl.clear()
            want = self.score(plan['classes'][k], vals[k], refs[k])
            if not pm.close(float(m.score()), want, 1e-9):
                raise Violation('wrong-score', 'model %d finally scores %r, its data and parameters give %r' % (k, m.score(), want))
        if np.random.random_sample() != mine.random_sample():
            raise Violation('wrong-stream', 'the random stream is not where the simulations should have left it')

    def loc(self, cls, x):
        return [float(v) for v in x] if cls[0] == 'P' else float(x)


SCENARIO = P16()
