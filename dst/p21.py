"""P21: marginal statistics of a linear model belong together and to the parameters asked for, whatever was evaluated or failed before."""

import json
import math

from . import engines
from .core import Scenario, Violation
from .p06 import EXC, INTERRUPTS, make_exc

vecba = None


class Vba:
    """The compiled module `vba`, which has no Python 3 version: a transcription of gauss/vbamodule.c that can fail."""

    def __init__(self):
        self.left = self.exc = self.fired = None

    def metricAnalysis(self, dmat, data):
        np = engines.np
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left, self.fired = None, self.exc
                raise self.exc
        g, d = np.array(dmat, float), np.array(data, float)
        if g.ndim != 2 or d.ndim != 1 or g.shape[1] != d.shape[0]:
            raise ValueError('inconsistent data dimensions!')
        m = g.shape[0]
        metric = np.array([[float(np.dot(g[a], g[b])) for b in range(m)] for a in range(m)])
        proj = np.array([float(np.dot(g[a], d)) for a in range(m)])
        low = np.zeros((m, m))
        rdet = 1.
        for a in range(m):
            for b in range(a, m):
                s = float(metric[a, b]) - sum(float(low[a, k] * low[b, k]) for k in range(a - 1, -1, -1))
                if a == b:
                    if s <= 0.:
                        raise ValueError('metric is not positive definite!')
                    low[a, a] = math.sqrt(s)
                    rdet *= float(low[a, a])
                else:
                    low[b, a] = s / low[a, a]
        ampl = np.zeros(m)
        for a in range(m):
            ampl[a] = (proj[a] - sum(low[a, b] * ampl[b] for b in range(a))) / low[a, a]
        for a in range(m - 1, -1, -1):
            ampl[a] = (ampl[a] - sum(low[b, a] * ampl[b] for b in range(a + 1, m))) / low[a, a]
        return metric, low, rdet, proj, ampl, float(np.dot(ampl, proj))

    def covar(self, low):
        np = engines.np
        inv = np.linalg.inv(np.array(low, float))
        return np.dot(inv.T, inv)


class Basis:
    """The user's basis functions, controllable."""

    def __init__(self, o):
        self.o = o
        self.left = self.what = self.exc = self.fired = self.nest = None
        self.seen = []

    def hit(self, shape, hook=False):
        """None, or what the user's function returns instead of its value."""
        if self.left is None or hook and self.what not in ('raise', 'nest'):
            return None
        self.left -= 1
        if self.left >= 0:
            return None
        self.left = None
        np = engines.np
        if self.what == 'raise':
            self.fired = self.exc
            raise self.exc
        if self.what == 'nest':
            self.fired = 'nest'
            self.nest()
            return None
        self.fired = self.what
        return {'shape': np.ones(shape + 1), 'nan': np.full(shape, math.nan), 'text': 'abc'}[self.what]

    def value(self, a, w, k, x):
        np = engines.np
        s = 10. ** -k if k else 1.
        return s * [np.cos(w * x), np.sin(w * x), 1. + w * x * x][a]

    def function(self, a):
        o = self.o

        def g(*args):
            args = list(args)
            aux = args.pop() if o['setup'] else None
            x = args.pop()
            if o['setup'] and aux != ('aux',) + tuple(args):
                raise Violation('wrong-setup', 'a basis function got %r, the set-up for its parameters %r returned something else' % (aux, args))
            w, k = (args + [0])[:2]
            r = self.hit(len(x))
            if r is not None:
                return r
            return self.value(a, w, k, x)
        return g

    def setup(self, *args):
        self.hit(1, True)
        return ('aux',) + tuple(args[:-1])


class Access:
    """The object a BAObj works with."""

    def __init__(self, basis, x, std, sig):
        self.b, self.x, self.sig = basis, x, sig
        self.std_smpls = std
        self.pars = None
        self.std_basis = [self.method(a) for a in range(basis.o['m'])]

    def set_nonlin(self, *args):
        self.pars = args
        self.b.hit(len(self.x), True)

    def method(self, a):
        def g():
            w, k = (list(self.pars) + [0])[:2]
            r = self.b.hit(len(self.x))
            if r is not None:
                return r
            return self.b.value(a, w, k, self.x) / self.sig
        return g


class P21(Scenario):
    pid = 'P21'
    quick_runs = 18000
    rule = ('A run is a seeded history of queries (statistics, amplitudes, covariance, residuals, with and without parameters) of 1-3 linear-model objects (BA and BAObj, one to three basis functions, with and without '
            'set-up function) at a few parameter values, among them ones with a degenerate or vanishing basis; planned evaluations fail, return unusable values or start a query of another object, the compiled routine runs out of '
            'memory, and receivers overwrite their results. Every answer is compared bit by bit with a fresh object and with least squares. Non-trivial = a fault fired or an evaluation failed. '
            'Distinct = distinct hash of objects, queries, faults and outcomes.')
    real = ['gauss.vecba']
    stub = ['the compiled module vba (a transcription of vbamodule.c, which has no Python 3 version)', 'the user\'s basis and set-up functions']
    assumptions = ['nonlinear parameters are numbers', 'the caller does not change the data array', 'one object is used by one thread at a time']

    def setup(self):
        global vecba
        engines.setup()
        import importlib
        vecba = importlib.import_module('inference.gauss.vecba')

    def gen(self, rng):
        objs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            objs.append(dict(kind=rng.choice(['BA', 'BAObj']), m=rng.choice([1, 2, 3, 3]), n=rng.choice([4, 7, 12]), seed=rng.randrange(1000), sigma=rng.choice(['col', 'one']),
                             setup=rng.random() < .4, two=rng.random() < .5, refuse=rng.choice([None, None, 'both', 'none', 'four'])))
            if objs[-1]['kind'] == 'BAObj':
                objs[-1]['setup'] = False
        ops = []
        for _ in range(rng.choice([3, 6, 12])):
            op = dict(o=rng.randrange(len(objs)), op=rng.choice(['stats', 'stats', 'amp', 'res', 'cov', 'amp0', 'res0', 'cov']), w=rng.choice([.7, .7, .7 + 1e-9, 1.3, 1.3 + 1e-5, 1, 2., 0., 2.9]), k=rng.choice([0, 0, 0, 3, 120]),
                      fault=None, spoil=rng.random() < .25)
            if rng.random() < .35:
                op['fault'] = dict(at=rng.choice([0, 1, 1, 2, 3]), what=rng.choice(['raise', 'raise', 'raise', 'shape', 'nan', 'text', 'nest', 'metric']), exc=rng.choice(EXC),
                                   o=rng.randrange(len(objs)), w=rng.choice([.7, 1.3, .4, 0.]))
            ops.append(op)
        return dict(objs=objs, ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            for key, v in (('fault', None), ('spoil', False)):
                if op.get(key):
                    p = json.loads(json.dumps(plan))
                    p['ops'][i][key] = v
                    yield p

    def data(self, o):
        np = engines.np
        r = np.random.RandomState(o['seed'])
        x = np.linspace(0., 3., o['n'])
        y = 1.2 * np.cos(x) - .4 * np.sin(1.7 * x) + .2 * r.standard_normal(o['n'])
        sig = r.uniform(.5, 2., o['n']) if o['sigma'] == 'col' else np.full(o['n'], .75)
        return x, y, sig

    def build(self, o):
        np = engines.np
        x, y, sig = self.data(o)
        b = Basis(o)
        if o['kind'] == 'BAObj':
            std = y / sig
            return vecba.BAObj(Access(b, x, std, sig)), b, [std]
        fs = [b.function(a) for a in range(o['m'])]
        st = b.setup if o['setup'] else None
        if o['sigma'] == 'col':
            d = np.column_stack([x, y, sig])
            return (vecba.BA(fs, d, setup=st) if st else vecba.BA(fs, d)), b, [d]
        d = np.column_stack([x, y])
        return (vecba.BA(fs, d, .75, st) if st else vecba.BA(fs, d, sigma=.75)), b, [d]

    def refuse(self, sim, o):
        np = engines.np
        x, y, sig = self.data(o)
        b = Basis(o)
        fs = [b.function(a) for a in range(o['m'])]
        try:
            if o['refuse'] == 'both':
                vecba.BA(fs, np.column_stack([x, y, sig]), sigma=.75)
            elif o['refuse'] == 'none':
                vecba.BA(fs, np.column_stack([x, y]))
            else:
                vecba.BA(fs, np.column_stack([x, y, sig, sig]))
        except ValueError:
            sim.probe('data-refused')
            return
        raise Violation('accepted', 'data and uncertainties that do not fit each other (%s) were accepted' % o['refuse'])

    def params(self, o, op):
        return (op['w'], op['k']) if o['two'] else (op['w'],)

    def call(self, h, o, op):
        k, p = op['op'], self.params(o, op)
        if k == 'stats':
            return h.marg_stats(*p)
        if k == 'amp':
            return h.amplitudes(*p)
        if k == 'res':
            return h.residuals(*p)
        if k == 'amp0':
            return h.amplitudes()
        if k == 'res0':
            return h.residuals()
        return h.covar()

    def reference(self, o, op, p):
        """A fresh object asked for parameters p, then for what op asks."""
        h, _, _ = self.build(o)
        h.marg_stats(*p)
        k = op['op']
        return {'stats': lambda: h.marg_stats(*p), 'amp': h.amplitudes, 'amp0': h.amplitudes, 'res': h.residuals, 'res0': h.residuals, 'cov': h.covar}[k]()

    def truth(self, o, op, p):
        """Least squares from first principles; None where that is ill conditioned."""
        np = engines.np
        x, y, sig = self.data(o)
        w, k = (list(p) + [0])[:2]
        b = Basis(o)
        g = np.array([b.value(a, w, 0, x) / sig for a in range(o['m'])])
        d = y / sig
        sv = np.linalg.svd(g, compute_uv=False)
        if sv[-1] < 1e-4 * sv[0]:
            return None
        amp = np.linalg.lstsq(g.T, d, rcond=None)[0]
        s = 10. ** -k if k else 1.
        res = d - amp @ g
        kind = op['op']
        if kind == 'stats':
            q = float(res @ res)
            return [q, float(d @ d) - q, 1. / (float(np.prod(sv)) * s ** o['m'])]
        if kind in ('amp', 'amp0'):
            return amp / s
        if kind in ('res', 'res0'):
            return res
        return np.linalg.inv(g @ g.T) / s ** 2

    def run(self, plan, sim):
        np, canon = engines.np, engines.canon
        np.seterr(all='ignore')
        vba = Vba()
        vecba.vba = vba
        objs, cur, given, held, dirty = [], [], [], [], set()
        for o in plan['objs']:
            h, b, arrays = self.build(o)
            objs.append((h, b))
            cur.append(None)
            given.append((arrays, canon(arrays)))
            sim.shape(o['kind'], o['m'], o['n'], o['sigma'], o['setup'], o['two'])
            if o.get('refuse') and o['kind'] == 'BA':
                self.refuse(sim, o)
        for i, op in enumerate(plan['ops']):
            if not objs:
                return
            q = op['o'] % len(objs)
            (h, b), o = objs[q], plan['objs'][q]
            p = self.params(o, op) if op['op'] in ('stats', 'amp', 'res') else cur[q]
            f = op['fault']
            # What a fresh object says.
            saved, vecba.vba = vba, Vba()
            want = werr = None
            if p is not None:
                try:
                    want = self.reference(o, op, p)
                except Exception as e:
                    werr = e
            vecba.vba = saved
            if f:
                exc = make_exc(f['exc'], i)
                if f['what'] == 'metric':
                    vba.left, vba.exc, vba.fired = 0, MemoryError('injected %d' % i), None
                else:
                    b.left, b.what, b.exc, b.fired = f['at'], f['what'], exc, None
                    b.nest = lambda: self.nest(sim, plan, objs, cur, q, f)
            sim.op(op['op'])
            got = err = None
            try:
                got = self.call(h, o, op)
            except Violation:
                raise
            except BaseException as e:
                err = e
            fired, mfired = b.fired, vba.fired
            b.left = b.fired = vba.left = vba.fired = None
            asks = op['op'] in ('stats', 'amp', 'res')
            if err is not None and asks:
                dirty.add(q)                    # what is asked without parameters may now be refused
            sim.log(i, op['op'], p, repr(err), repr(got))
            sim.shape(op['op'], p == cur[q], op['w'], op['k'], f and f['what'], type(err).__name__)
            if mfired is not None:
                sim.fault('memory_in_compiled_routine')
                if err is not mfired:
                    raise Violation('wrong-error', 'the compiled routine raised %r, the caller got %r' % (mfired, err or got))
            elif isinstance(fired, BaseException):
                sim.fault('interrupt_in_basis' if f['exc'] in INTERRUPTS else 'basis_error')
                if err is not fired:
                    raise Violation('wrong-error', 'a basis function raised %r, the caller got %r' % (fired, err or got))
            elif fired in ('shape', 'text'):
                sim.fault('unusable_return')
                if err is None:
                    raise Violation('wrong-result', 'a basis function returned something unusable (%s), the query %r' % (fired, got))
            elif fired == 'nan':
                sim.fault('nan_return')         # the answer is then for these values: go on with a new object
                objs[q] = self.build(o)[:2]
                cur[q], given[q] = None, ([], canon([]))
                continue
            elif err is not None:
                sim.nontrivial = True
                sim.probe('failed-' + type(err).__name__)
                if p is not None and werr is None and (asks or q not in dirty):
                    raise Violation('spurious-error', 'query %s at %r raised %r, a fresh object gives %r' % (op['op'], p, err, want))
                if p is None and op['op'] == 'cov' and not isinstance(err, ValueError):
                    raise Violation('wrong-error', 'query %s without parameters, before any calculation, raised %r' % (op['op'], err))
                if asks and op['k'] < 100 and self.truth(o, op, p) is not None:
                    raise Violation('spurious-error', 'query %s at %r, where the basis is well conditioned, raised %r' % (op['op'], p, err))
                if asks and werr is not None and type(err) is not type(werr):
                    raise Violation('differs', 'query %s at %r raised %r, a fresh object %r' % (op['op'], p, err, werr))
            else:
                if fired == 'nest':
                    sim.fault('nested_query')
                if p is None:
                    raise Violation('unfounded', 'query %s without parameters answered %r before any calculation succeeded' % (op['op'], got))
                self.compare(sim, o, op, p, got, want, werr)
                cur[q] = p
                if asks:
                    dirty.discard(q)
            if err is None and got is not None:
                if op['spoil']:
                    for a in (got if isinstance(got, tuple) else [got]):
                        if isinstance(a, np.ndarray) and a.flags.writeable:
                            a.fill(99.)
                            sim.probe('result-overwritten')
                else:
                    held.append((got, canon(got), op['op']))
            for a, c, what in held:
                if canon(a) != c:
                    raise Violation('result-changed', 'a result of %s handed out earlier changed' % what)
            for a, c in given:
                if canon(a) != c:
                    raise Violation('data-changed', 'the caller\'s data changed')

    def nest(self, sim, plan, objs, cur, q, f):
        """A query of another object from inside a basis function."""
        j = f['o'] % len(objs)
        if j == q:
            return
        o, (h, b) = plan['objs'][j], objs[j]
        p = (f['w'], 0) if o['two'] else (f['w'],)
        try:
            h.marg_stats(*p)
        except ValueError:
            return
        cur[j] = p

    def compare(self, sim, o, op, p, got, want, werr):
        np, canon = engines.np, engines.canon
        sim.ok()
        if werr is not None:
            raise Violation('unearned', 'query %s at %r answered %r, a fresh object raises %r' % (op['op'], p, got, werr))
        if canon(got) != canon(want):
            raise Violation('differs', 'query %s for parameters %r gave %r, a fresh object gives %r' % (op['op'], p, got, want))
        t = self.truth(o, op, p)
        if t is not None:
            sim.probe('least-squares')
            g = np.array(got, float)
            if g.shape != np.shape(t) or not np.allclose(g, t, rtol=1e-6, atol=1e-9 * (np.max(np.abs(t)) if op['op'] != 'stats' else 1.)):
                raise Violation('wrong', 'query %s for parameters %r gave %r, least squares gives %r' % (op['op'], p, got, t))


SCENARIO = P21()
