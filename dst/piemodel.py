"""
Models for the parametric-inference (PIE) scenarios: real Inference, SignalModel,
RealParam and SampledGaussian classes with user hooks that the plan controls.
"""

import math

np = None
NAMES = ['amp', 'tilt', 'curv', 'off']
CLASSES = {}


class Garbage:
    """Stands for a signal function that returned None instead of raising."""

    def __repr__(self):
        return 'None returned by the signal function'


GARBAGE = Garbage()


def reached(fired, err):
    """Did the failure of user code reach the caller?"""
    return isinstance(err, Exception) if fired is GARBAGE else err is fired


def fault_name(fault, interrupts):
    if fault[0] == 'garbage':
        return 'garbage_from_signal'
    return 'interrupt_in_' + fault[0] if fault[2] in interrupts else fault[0] + '_error'


class Ctl:
    """Counts the user-code calls of one model instance and injects faults.

    faults: {hook: [call number, exception or None]} armed by the scenario."""

    def __init__(self):
        self.n = {}
        self.arm = {}
        self.fired = None
        self.watch = None
        self.after = 0

    def hit(self, hook, *info):
        if self.fired is not None:
            self.after += 1
        self.n[hook] = self.n.get(hook, 0) + 1
        if self.watch is not None:
            self.watch(hook, info)
        a = self.arm.get(hook)
        if a is not None:
            a[0] -= 1
            if a[0] < 0:
                exc = a[1]
                del self.arm[hook]
                self.fired = exc
                raise exc

    def give(self, value):
        """The value a signal function returns; garbage (None) when planned."""
        a = self.arm.get('garbage')
        if a is not None:
            a[0] -= 1
            if a[0] < 0:
                del self.arm['garbage']
                self.fired = GARBAGE
                return None
        return value

    def clear(self):
        self.arm.clear()
        self.fired = None
        self.after = 0


def data(seed, n):
    """A data set as plain lists: locations, values, sigmas."""
    import random
    r = random.Random(seed)
    xs = sorted(r.uniform(-2, 2) for _ in range(n))
    ys = [1.3 + 0.4 * x - 0.2 * x * x + r.gauss(0, 0.3) for x in xs]
    return xs, ys, [r.uniform(0.2, 0.5) for _ in range(n)]


def setup():
    global np, pie, realparam
    import numpy
    np = numpy
    import inference.pie as pie
    import importlib
    realparam = importlib.import_module('inference.pie.realparam')
    from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference, MaxLikeInference, BayesianInference

    class Sig(SignalModel):
        amp = RealParam(1., 'Amplitude')
        tilt = RealParam(.5, 'Slope')
        curv = RealParam(-.1, 'Curvature')
        off = RealParam(.2)

        def on_param_change(self, param):
            self.ctl.hit('change', param.name)
            d = self.__dict__
            d.setdefault('derived', {})[param.name] = 2. * float(getattr(self, param.name))

        def on_use(self):
            d = self.__dict__
            d['table'] = None
            self.ctl.hit('use')
            d['table'] = [float(self.amp) + float(self.off), float(self.tilt), float(self.curv)]

        def signal(self, x):
            self.ctl.hit('signal', x)
            t = self.table
            return self.ctl.give(t[0] + t[1] * x + t[2] * x * x)

        def log_prior(self):
            self.ctl.hit('prior')
            return -0.5 * sq((float(self.amp) - 1.) / 3.) - 0.5 * sq(float(self.tilt) / 3.)

    class VecSig(SignalModel):
        amp = RealParam(1., 'Amplitude')
        tilt = RealParam(.5, 'Slope')
        curv = RealParam(-.1, 'Curvature')
        off = RealParam(.2)
        on_param_change = Sig.__dict__['on_param_change']
        on_use = Sig.__dict__['on_use']
        log_prior = Sig.__dict__['log_prior']

        def signals(self, xs):
            self.ctl.hit('signal', len(xs))
            t = self.table
            return self.ctl.give(t[0] + t[1] * xs + t[2] * xs * xs)

    class Preds(PredictorSet):
        d1 = SampledGaussian(*[np.array(v) for v in data(1, 7)])
        d2 = SampledGaussian(*[np.array(v) for v in data(2, 5)])

    class VPreds(PredictorSet):
        d1 = SampledGaussian(*[np.array(v) for v in data(1, 7)])
        d2 = SampledGaussian(*[np.array(v) for v in data(2, 5)])

    class Chi(ChisqrInference, Sig, Preds):
        pass

    class ML(MaxLikeInference, Sig, Preds):
        pass

    class Bayes(BayesianInference, Sig, Preds):
        pass

    class VChi(ChisqrInference, VecSig, VPreds):
        pass

    class VML(MaxLikeInference, VecSig, VPreds):
        pass

    class VBayes(BayesianInference, VecSig, VPreds):
        pass
    for c in (Chi, ML, Bayes, VChi, VML, VBayes):
        CLASSES[c.__name__] = c


def make(cls, touch=True):
    """A fresh model with its own control block; all parameters accessed once."""
    c = CLASSES[cls]
    m = c.__new__(c)
    m.__dict__['ctl'] = Ctl()
    m.__init__()
    if touch:
        for name in NAMES:
            getattr(m, name)
    return m


def values(m):
    return {name: float(getattr(m, name)) for name in NAMES}


def ref_score(m, vals, sets=None):
    """The score computed from first principles; `sets` are (locns, vals, sigmas)."""
    if sets is None:
        sets = [data(1, 7), data(2, 5)]
    chi2 = 0.
    for xs, ys, ss in sets:
        for x, y, s in zip(xs, ys, ss):
            p = (vals['amp'] + vals['off']) + vals['tilt'] * x + vals['curv'] * x * x
            z = (y - p) / s
            chi2 += z * z
    name = type(m).__name__
    if 'Chi' in name:
        return chi2
    if 'ML' in name:
        return -0.5 * chi2
    return -0.5 * chi2 - 0.5 * sq((vals['amp'] - 1.) / 3.) - 0.5 * sq(vals['tilt'] / 3.)


def sq(x):
    return x * x


def close(a, b, tol=1e-9):
    if not math.isfinite(b):
        return True
    return a == b or abs(a - b) <= tol * max(1., abs(a), abs(b))


def snapshot(m):
    """Everything observable about the parameters of a model."""
    out = {}
    for name in NAMES:
        p = getattr(m, name)
        h = p.handler
        d = dict(value=float(p).hex(), status=h.status, got=float(h.get_value()).hex())
        for a in ('bounded', 'lo', 'hi', 'delta', 'slo', 'shi', 'steps', 'step_num', 'stype', 'fac'):
            v = getattr(h, a, None)
            d[a] = float(v).hex() if isinstance(v, float) else v
        d['bounded'] = bool(d['bounded'])
        out[name] = d
    for lst in ('fixed_params', 'varying_params', 'stepping_params'):
        out[lst] = [h.name for h in getattr(m, lst)]
    return out
