"""
The numerical engines that call user functions back, as seeded jobs.

A job is a JSON dict; `Job(spec)` builds the caller's arrays and the user
function; `run(wrap)` calls the real engine with wrap(function) and returns its
result in a canonical, bitwise comparable form.
"""

import math
import random

np = None
KINDS = ['dllsteps', 'obsinfo', 'adapt', 'adapt_vec', 'brent', 'linmin', 'powell', 'grid1d', 'hpdgrid1d', 'hpdgrid2d',
         'cub2d', 'rect', 'ecf', 'zbracket', 'pie']
NOCALL = ['hpd1d', 'hpd2d', 'onoff']    # engines that take arrays but call nothing back
PIE = {}


def setup():
    global np, obsinfo, adapt, adapt_vec, nrmin, grid1d, hpdgrid, cub2d, hpd, numutils, onoff
    import numpy
    np = numpy
    import importlib

    def mod(name):
        return importlib.import_module('inference.' + name)
    obsinfo, adapt, adapt_vec = mod('deriv.obsinfo'), mod('integrate.adapt'), mod('integrate.adapt_vec')
    nrmin, grid1d, hpdgrid, cub2d = mod('utils.nrmin'), mod('grid.grid1d'), mod('grid.hpdgrid'), mod('integrate.cub2d')
    hpd, numutils, onoff = mod('grid.hpd'), mod('utils.numutils'), mod('count.onoff')
    if not PIE:
        pie_classes()


def pie_classes():
    """Models whose signal is a function the job supplies; jobs share the classes, not the models."""
    from inference.pie import SignalModel, RealParam, PredictorSet, SampledGaussian, ChisqrInference, MaxLikeInference, BayesianInference

    class Sig(SignalModel):
        a = RealParam(.8)
        b = RealParam(.3)

        def on_use(self):
            self.__dict__['ab'] = float(self.a), float(self.b)

        def signal(self, x):
            return self.user(x)

        def log_prior(self):
            return -.01 * float(self.a) ** 2

    class VSig(SignalModel):
        a = RealParam(.8)
        b = RealParam(.3)
        on_use = Sig.__dict__['on_use']
        log_prior = Sig.__dict__['log_prior']

        def signals(self, xs):
            return self.user(xs)

    class Preds(PredictorSet):
        d1 = SampledGaussian(np.array([-1., 0., 1., 2.]), np.array([.2, .9, 1.2, 1.1]), np.array([.2, .3, .25, .2]))

    class VPreds(PredictorSet):
        d1 = SampledGaussian(np.array([-1., 0., 1., 2.]), np.array([.2, .9, 1.2, 1.1]), np.array([.2, .3, .25, .2]))
    for base in (ChisqrInference, MaxLikeInference, BayesianInference):
        PIE[base.__name__[0]] = type(Sig)(base.__name__[0] + 'Model', (base, Sig, Preds), {})
        PIE['V' + base.__name__[0]] = type(Sig)('V' + base.__name__[0] + 'Model', (base, VSig, VPreds), {})


def log_range(lo, hi, n):
    return [lo * math.exp(math.log(hi / lo) * i / (n - 1.)) for i in range(n)]


def canon(v):
    if isinstance(v, np.ndarray):
        return ['a', str(v.dtype), list(v.shape), np.ascontiguousarray(v).tobytes().hex()]
    if isinstance(v, (float, np.floating)):
        return ['f', float(v).hex() if v == v else 'nan']
    if isinstance(v, (bool, int, np.integer, np.bool_)):
        return ['i', int(v)]
    if isinstance(v, (tuple, list)):
        return ['t'] + [canon(x) for x in v]
    if isinstance(v, BaseException):
        return ['e', type(v).__name__, str(v)]
    if v is None:
        return ['n']
    return ['r', type(v).__name__, repr(v)]


def gen_job(rng, kinds=KINDS):
    kind = rng.choice(kinds)
    j = dict(kind=kind, s=rng.randrange(1 << 30), n=rng.choice([1, 2, 2, 3, 4]))
    if kind in ('adapt', 'adapt_vec'):
        j['n'] = rng.choice([2, 2, 2, 3])
        j['acc'] = rng.choice([1e-2, 1e-3, 1e-4])
        j['maxfac'] = rng.choice([5, 20, 60])
        j['nf'] = rng.randrange(1, 4)
        j['key'] = rng.choice([0, 0, 3, 4])
    elif kind in ('grid1d', 'hpdgrid1d', 'hpdgrid2d', 'hpd1d', 'hpd2d'):
        j['n'] = rng.choice([11, 21, 40])
        j['log'] = rng.random() < 0.4
        j['tup'] = rng.random() < 0.3
    elif kind == 'ecf':
        j['rule'] = rng.randrange(100)
    elif kind == 'powell':
        j['drx'] = rng.random() < 0.5
        j['shuffle'] = rng.random() < 0.3
    elif kind == 'pie':
        j['cls'] = rng.choice(['C', 'M', 'B', 'VC', 'VM', 'VB'])
        j['what'] = rng.choice(['fit', 'fit2', 'mapped', 'grid', 'profile', 'info'])
    elif kind == 'onoff':
        j['n'] = rng.randrange(1, 7)
    elif kind in ('dllsteps', 'obsinfo'):
        j['maxll'] = rng.random() < 0.5
        j['iter'] = rng.choice([0, 1, 2, 4])
    j['layout'] = rng.choice(['c', 'c', 'stride', 'ro', 'list'])
    return j


class Job:
    def __init__(self, spec):
        self.spec = spec
        r = random.Random(spec['s'])
        self.kind = spec['kind']
        self.n = n = spec['n']
        m = n if n < 6 else 2
        self.mu = [r.uniform(-2, 2) for _ in range(m)]
        self.sc = [r.uniform(0.4, 2.5) for _ in range(m)]
        self.rho = r.uniform(-0.4, 0.4)
        self.cub = r.uniform(-0.02, 0.02)
        self.off = r.uniform(-50, 50)
        self.arrays = {}
        self.g = [r.uniform(0.2, 0.8) for _ in range(m)]
        self.x0 = [r.uniform(-3, 3) for _ in range(m)]

    # -- user functions ------------------------------------------------------
    def loglike(self, x):
        """Unimodal log likelihood with its maximum at mu."""
        z = [(float(x[i]) - self.mu[i]) / self.sc[i] for i in range(len(self.mu))]
        q = sum(v * v for v in z)
        for i in range(len(z) - 1):
            q += 2 * self.rho * z[i] * z[i + 1] * 0.5
        return self.off - 0.5 * q - 0.01 * q * q

    def fmin(self, x):
        return -self.loglike(x)

    def bump(self, x):
        """A positive integrand on the unit cube."""
        return 0.3 + math.exp(-sum(((float(x[i]) - self.g[i % len(self.g)]) / 0.35) ** 2 for i in range(self.n)))

    def lp1(self, x):
        x = float(x)
        a = -0.5 * ((x - 4.2 - self.rho) / 0.7) ** 2
        b = -0.5 * ((x - 7.1) / (0.5 + abs(self.cub) * 10)) ** 2 - 1.5
        m = max(a, b)
        return self.off + m + math.log(math.exp(a - m) + math.exp(b - m))

    def lp2(self, x, y):
        return self.lp1(x) - 0.5 * ((float(y) - 5.) / 1.3) ** 2 + 0.1 * float(x)

    def f2(self, x, y):
        return 1. + 0.3 * float(x) - 0.2 * float(y) + math.sin(float(x) * float(y) + self.rho)

    def vec(self, x, *rest):
        b = self.bump(x)
        return np.array([b, b * float(x[0]), b * float(x[1])][:self.spec['nf']])

    # -- caller's arrays -----------------------------------------------------
    def arr(self, name, vals):
        """The caller's own array, in the layout the plan asks for."""
        if name in self.arrays:
            return self.arrays[name][0]
        lay = self.spec.get('layout', 'c')
        a = np.array(vals, float)
        if lay == 'stride':
            big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
            big[..., ::2] = a
            a = big[..., ::2]
        elif lay == 'ro':
            a.flags.writeable = False
        elif lay == 'list' and self.kind in ('dllsteps', 'obsinfo', 'adapt', 'adapt_vec'):
            a = [float(v) for v in vals]
        self.arrays[name] = (a, canon(np.array(a)))
        return a

    def intact(self):
        """Name of a caller's array that is no longer what it was, or None."""
        for name, (a, c) in self.arrays.items():
            if canon(np.array(a)) != c:
                return name
        return None

    # -- the engine call -----------------------------------------------------
    def run(self, wrap):
        """Call the engine with a user function that is `wrap(f, args)` for
        every evaluation.  Canonical result; library errors the engine reports are results too."""
        lib = (RuntimeError, ValueError, nrmin.IterErr, ZeroDivisionError, OverflowError)
        try:
            self.raw = self._run(wrap)
            return canon(self.raw)
        except lib as e:
            if getattr(e, 'injected', False):
                raise
            return canon(e)

    def _run(self, wrap):
        k, s, n = self.kind, self.spec, self.n
        around = wrap

        def wrap(f, arity=1):
            # f2py looks at the number of positional arguments
            if arity == 1:
                return lambda x: around(f, (x,))
            return lambda x, y: around(f, (x, y))
        if k == 'dllsteps':
            f = wrap(self.loglike)
            maxll = self.off if s['maxll'] else None
            return obsinfo.dllsteps(f, self.arr('mle', self.mu), self.arr('guess', [0.3 * v for v in self.sc]),
                                    0.5 + s['iter'] * 0.3, maxll)
        if k == 'obsinfo':
            f = wrap(self.loglike)
            maxll = self.off if s['maxll'] else None
            return obsinfo.obsinfo(f, self.arr('mle', self.mu), self.arr('deltas', [0.5 * v for v in self.sc]), maxll, s['iter'])
        if k == 'adapt':
            return adapt.adapt(wrap(self.bump), self.arr('lower', [0.] * n), self.arr('upper', [1.] * n), s['acc'],
                               maxfac=s['maxfac'])
        if k == 'adapt_vec':
            return adapt_vec.adapt_vec(s['nf'], wrap(self.vec), self.arr('lower', [0.] * n), self.arr('upper', [1.] * n),
                                       s['acc'], key=s['key'], maxpts=200 * s['maxfac'])
        if k == 'brent':
            f = wrap(lambda x: -self.lp1(x))
            b = nrmin.MinBracket(f, 2. + self.rho, 2.5)
            return [(b.x1, b.xm, b.x2, b.f1, b.fm, b.f2), nrmin.brent(f, b)]
        if k == 'linmin':
            return nrmin.linmin(wrap(self.fmin), self.arr('pt', self.x0), self.arr('drxn', [0.5 + 0.1 * i for i in range(n)]))
        if k == 'powell':
            d = None
            if s['drx']:
                d = self.arr('drxns', [[1. if i == j else 0.1 * self.rho for j in range(n)] for i in range(n)])
            return nrmin.powell(wrap(self.fmin), self.arr('p', self.x0), d, shuffle=s['shuffle'])
        if k == 'grid1d':
            f = self.lp1
            if s['tup']:
                f = lambda x: (1., self.lp1(x))
            g = grid1d.Grid1D(1., 10., n, 'log' if s['log'] else 'linear')
            sel = 1 if s['tup'] else None
            g.firstpass(wrap(f), select=sel)
            out = [g.logtrapzd(select=sel)]
            if not s['log']:
                g.refine()
                out += [g.logtrapzd(select=sel), len(g), [g.point(i) for i in range(0, len(g), 7)]]
            return out
        if k == 'hpdgrid1d':
            h = hpdgrid.HPDGrid1D(wrap(self.lp1), 1., 10., n, 'log' if s['log'] else 'linear')
            return [h.lml, h.logpdf, h.critlevel(0.6), h.probs, h.deltas, h.levels, h.bounds]
        if k == 'hpdgrid2d':
            n = 9
            h = hpdgrid.HPDGrid2D(wrap(self.lp2, 2), 1., 10., n, 2., 9., n + 2, 'log' if s['log'] else 'linear')
            return [h.lml, h.logpdf, h.critlevel(0.5), h.probs, h.deltas, h.levels]
        if k == 'cub2d':
            c = cub2d.NormWtCub2D(self.arr('locn', (self.mu * 2)[:2]), self.arr('scale', (self.sc * 2)[:2]))
            return [c(wrap(self.f2, 2)), c(wrap(self.f2, 2))]
        if k == 'rect':
            f = wrap(self.f2, 2)
            xr, yr = self.arr('xr', [-1., 0.5 + self.rho]), self.arr('yr', [0., 2.])
            return [cub2d.rect3d4pt(f, xr, yr), cub2d.rect7d12pt(f, xr, yr), cub2d.square1d4pt(f), cub2d.square3d4pt(f),
                    cub2d.square7d12pt(f)]
        if k == 'ecf':
            names = sorted(cub2d.rule_dict)
            fn, absc, wts = cub2d.rule_dict[names[s['rule'] % len(names)]]
            self.arrays.setdefault('absc', (absc, canon(absc)))
            self.arrays.setdefault('wts', (wts, canon(wts)))
            return fn(wrap(self.f2, 2))
        if k == 'zbracket':
            f = wrap(lambda x: math.tanh(self.sc[0] * (x - 3. * self.mu[0])) + 0.1 * self.rho)
            return numutils.zbracket(f, self.x0[0], self.x0[0] + self.g[0])
        if k == 'pie':
            return self.pie(wrap)
        if k == 'onoff':
            r = random.Random(s['s'])
            h = onoff.OnOff(r.randrange(0, 30), r.choice([1., 2.]), r.randrange(0, 40), r.choice([1., 4.]))
            v = self.arr('s', [r.uniform(0., 20.) for _ in range(n)])
            return [h.siglml(v), h.sigmp(v), h.siglml(3.5), h.sigmp(2.), h.pnsig(0), h.siglml(v)]
        if k == 'hpd1d':
            r = log_range(1., 10., n) if s['log'] else [1. + 9. * i / (n - 1.) for i in range(n)]
            h = hpd.HPD1D(self.arr('logpdf', [self.lp1(x) for x in r]), 1., 10., 'log' if s['log'] else 'linear')
            return [h.lml, h.critlevel(0.6), h.critlevel(0.9), h.probs, h.levels, h.bounds]
        if k == 'hpd2d':
            n, m = 9, 11
            xs = log_range(1., 10., n) if s['log'] else [1. + 9. * i / (n - 1.) for i in range(n)]
            ys = [2. + 7. * i / (m - 1.) for i in range(m)]
            h = hpd.HPD2D(self.arr('logpdf', [[self.lp2(x, y) for y in ys] for x in xs]), 1., 10., 2., 9.,
                          'log' if s['log'] else 'linear')
            return [h.lml, h.critlevel(0.6), h.probs, h.levels]
        raise AssertionError(k)

    def pie(self, wrap):
        s = self.spec
        m = PIE[s['cls']]()
        d = m.__dict__
        f = lambda x: d['ab'][0] + d['ab'][1] * (x if s['cls'][0] == 'V' else float(x)) + .02 * self.rho
        d['user'] = wrap(f)
        m.a, m.b = .5 + .1 * self.g[0], .2
        m.a.range(-5., 5.)
        m.b.range(-6., 6.)
        if s['what'] == 'sim':
            np.random.seed(s['s'] % 10007)
            m.d1.sim(locns=self.arr('locns', [.1 * i * self.g[0] for i in range(4)]), sigmas=self.arr('sigmas', [.2, .3, .1, .4]))
            if s['cls'][0] != 'V':
                m.d1.sim1(1)
            m.d1.add_sim(locns=self.arr('more', [.7, -.4]), sigmas=self.arr('noise', [.1, .2]))
            return [m.d1.vals, m.d1.locns, m.d1.sigmas, m.score()]
        if s['what'] in ('fit', 'mapped'):
            m.a.vary(delta=.1)
            if s['what'] == 'mapped':
                m.map_bounds()
            p, v = m.fit()
            return [p, v, float(m.a), float(m.b), m.score()]
        if s['what'] == 'info' and 'B' in s['cls']:
            m.b.vary(delta=.1)
            m.score()
            return [m.obs_info(steps=self.arr('steps', [.05]), n=1), float(m.b)]
        if s['what'] == 'fit2':
            m.a.vary(delta=.2)
            m.b.vary(delta=.1)
            p, v = m.fit()
            return [p, v, float(m.a), float(m.b), m.score()]
        m.a.linstep(.2, 1.4, 4)
        if s['what'] == 'profile':
            m.b.vary(delta=.1)
            g, v = m.fit(vargrid=True)
            return [g.values, v.values, g.opt_val, list(g.opt_ind)]
        m.b.linstep(-.1, .4, 3)
        g = m.fit()
        return [g.values, [list(a) for a in g.axes]]
