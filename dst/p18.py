"""P18: on/off count inferences do not depend on the order, failures or overlap of queries."""

import json
import math

from . import engines, simthread
from .core import Scenario, Violation, elsewhere
from .p06 import EXC, INTERRUPTS, make_exc

QEXC = [e for e in EXC if e not in ('NotImplementedError', 'IterErr', 'TypeError', 'StopIteration')]
onoff = None


def signal_probs(d):
    """Probability that i of the on-source counts are from the signal (Loredo 1992, eq. 12.17)."""
    n, t, b, tb = d['on'], d['ton'], d['off'], d['toff']
    l = [i * math.log1p(tb / t) + math.lgamma(n + b - i + 1) - math.lgamma(n - i + 1) for i in range(n + 1)]
    m = max(l)
    w = [math.exp(x - m) for x in l]
    s = sum(w)
    return [x / s for x in w]


def density(d, s):
    t = d['ton']
    tot = 0.
    for i, c in enumerate(signal_probs(d)):
        x = s * t
        if x == 0.:
            l = 0. if i == 0 else -math.inf
        else:
            l = i * math.log(x) - x - math.lgamma(i + 1)
        tot += c * t * math.exp(l)
    return tot


def log_like(d, s):
    """Log of the marginal likelihood (without scale factor) and its derivative."""
    n, t, b, tb = d['on'], d['ton'], d['off'], d['toff']
    l = [math.lgamma(n - i + b + 1) - math.lgamma(n - i + 1) - math.lgamma(i + 1) + (i * math.log(s * (t + tb)) if s else 0. if i == 0 else -math.inf) for i in range(n + 1)]
    m = max(l)
    w = [math.exp(x - m) for x in l]
    der = sum(i * x for i, x in enumerate(w)) / (s * sum(w)) - t if s else (1. + tb / t) * t * n / (n + b) - t if n else -t
    return m + math.log(sum(w)) - s * t, der


class P18(Scenario):
    pid = 'P18'
    quick_runs = 9000
    list_fields = ('switches', 'tasks')
    rule = ('A run creates 1-3 OnOff objects over random count data and queries them (likelihood and posterior, also by the functions for channels and for derivatives, of scalar, floating, integer and length-one array rates, signal-count probabilities) from '
            '1-3 simulated threads preempted at lines of package code; some queries fail inside the caller\'s array or number or are refused, and results are overwritten by their receivers. '
            'Each answer is compared bit by bit with that of a fresh object and with a reference computation. Non-trivial = a fault fired, a query was refused or threads were preempted. '
            'Distinct = distinct hash of data, queries, faults and switch sequence.')
    real = ['count.onoff', 'count._cbmlike (Fortran)']
    stub = ['the caller\'s arrays and numbers (may fail)', 'the thread scheduler']
    assumptions = ['the interpreter lock is held inside compiled code']

    def setup(self):
        global onoff
        engines.setup()
        import importlib
        onoff = importlib.import_module('inference.count.onoff')

    def gen(self, rng):
        datas = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            d = dict(on=rng.choice([0, 1, 2, 5, 16, 40]), ton=rng.choice([1., 2., .5]), off=rng.choice([0, 1, 3, 9, 60]), toff=rng.choice([1., 3., 10.]),
                     cut=rng.choice([1e-5, 1e-5, 0., 1e-3]))
            if datas and rng.random() < .6:     # differs from another object's data in one or two respects
                d = dict(rng.choice(datas), **{k: d[k] for k in rng.sample(sorted(d), rng.choice([1, 1, 2]))})
            datas.append(d)
        pool = [round(rng.uniform(0., 30.), 3) for _ in range(3)]
        tasks = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            ops = []
            for _ in range(rng.choice([2, 5, 9])):
                op = dict(o=rng.randrange(len(datas)), op=rng.choice(['siglml', 'siglml', 'sigmp', 'sigmp', 'pnsig', 'pnall', 'vlike', 'liked']), fault=None, clobber=rng.random() < .4)
                form = rng.choice(['float', 'float', 'int', 'array', 'array', 'iarray', 'one', 'empty', 'two-d', 'list'])
                op['form'] = form
                op['s'] = [rng.choice(pool) if rng.random() < .5 else round(rng.uniform(0., 30.), 3) if rng.random() < .85 else rng.choice([0., 1e-8, 400., 5000.]) for _ in range(rng.randrange(2, 6))]
                op['n'] = rng.choice([0, 0, 1, 2, 5, 16, 40, -1, 41, 1000])
                if form in ('float', 'array') and rng.random() < .3:
                    op['fault'] = [rng.randrange(len(op['s'])), rng.choice(QEXC)]
                ops.append(op)
            tasks.append(ops)
        sw = []
        if len(tasks) > 1:
            sw = [[s, rng.randrange(3)] for s in sorted(rng.randrange(1, rng.choice([20, 100, 400])) for _ in range(rng.choice([1, 3, 10, 40])))]
        return dict(datas=datas, tasks=tasks, switches=sw)

    def simplify(self, plan):
        for i, t in enumerate(plan['tasks']):
            for j in range(len(t)):
                p = json.loads(json.dumps(plan))
                del p['tasks'][i][j]
                yield p
                if t[j]['fault']:
                    p = json.loads(json.dumps(plan))
                    p['tasks'][i][j]['fault'] = None
                    yield p

    def make(self, d):
        return onoff.OnOff(d['on'], d['ton'], d['off'], d['toff'], d['cut'])

    def arg(self, op, fault):
        np = engines.np
        f, s = op['form'], op['s']
        if f == 'float':
            if fault:
                class Num:
                    def __float__(self):
                        sim_hit(fault)
                        return s[0]
                return Num()
            return s[0]
        if f == 'int':
            return int(s[0])
        if f == 'one':
            return np.array(s[:1])
        if f == 'iarray':
            return np.array([int(x) for x in s])
        if f == 'empty':
            return np.array([])
        if f == 'two-d':
            return np.array([s, s])
        if f == 'list':
            return list(s)
        if fault:
            class Arr(np.ndarray):
                def __iter__(self):
                    for k, v in enumerate(np.asarray(self)):
                        if k == fault[0]:
                            sim_hit(fault)
                        yield v
            return np.array(s).view(Arr)
        return np.array(s)

    def call(self, h, op, fault=None):
        if op['op'] == 'pnall':
            return h.pnsig()
        if op['op'] == 'pnsig':
            return h.pnsig(op['n'])
        if op['op'] == 'liked':
            return onoff.slmliked(op['s'][0], h.on_cts, h.on_intvl, h.off_cts, h.off_intvl, h.offset, h.cutoff)
        if op['op'] == 'vlike':
            # channels with the same exposures and other counts
            ch = self.channels(h.on_cts, h.off_cts, len(op['s']))
            on, off = [c[0] for c in ch], [c[1] for c in ch]
            if op['form'] != 'list':
                on, off = engines.np.array(on, 'i' if op['form'] == 'array' else int), engines.np.array(off)
            scl = onoff.vslml_offset(on, h.on_intvl, off, h.off_intvl)
            return scl, onoff.vslmlike(engines.np.array(op['s']), on, h.on_intvl, off, h.off_intvl, scl, h.cutoff)
        return getattr(h, op['op'])(self.arg(op, fault))

    def channels(self, on, off, n):
        return [(on if i == 0 else (on + 7 * i) % 45, off if i == 0 else (off + 11 * i) % 70) for i in range(n)]

    def attempt(self, h, op, fault=None):
        try:
            return self.call(h, op, fault), None
        except simthread._Abort:
            raise
        except BaseException as e:
            return None, e

    def run(self, plan, sim):
        canon = engines.canon
        np = engines.np

        # the answers of fresh objects in a process that has done nothing else, asked in the opposite order
        allops = [op for ops in plan['tasks'] for op in ops]

        def alone():
            out = []
            for op in reversed(allops):
                got, err = self.attempt(self.make(plan['datas'][op['o']]), op)
                out.append(['e', type(err).__name__] if err is not None else canon(got))
            return out[::-1]
        first = dict(zip(map(id, allops), elsewhere(alone)))

        objs = [self.make(d) for d in plan['datas']]

        def check(op, i):
            h, d = objs[op['o']], plan['datas'][op['o']]
            want, werr = self.attempt(self.make(d), op)
            now = ['e', type(werr).__name__] if werr is not None else canon(want)
            if now != first[id(op)]:
                raise Violation('differs', '%s %r of a fresh object gives %r, without the queries before it %r' % (op['op'], op, werr or want, first[id(op)]))
            fault = None
            if op['fault'] and op['op'] in ('siglml', 'sigmp'):
                fault = [op['fault'][0], make_exc(op['fault'][1], i), False]
            sim.op(op['op'])
            got, err = self.attempt(h, op, fault)
            sim.shape(op['o'], op['op'], op['form'], op['n'], type(err).__name__)
            sim.log(op['op'], op['form'], repr(err), canon(got))
            sim.ok()
            if fault and fault[2]:
                sim.fault('interrupt_in_array' if op['fault'][1] in INTERRUPTS else 'array_error')
                if err is not fault[1]:
                    raise Violation('wrong-error', 'the caller\'s array or number raised %r in %s, the caller got %r' % (fault[1], op['op'], err or got))
                return
            if err is not None:
                sim.nontrivial = True
                sim.probe('refused')
                if type(err) is not type(werr):
                    raise Violation('differs', '%s %r raised %r, for a fresh object it gives %r' % (op['op'], op, err, werr or want))
                self.legit(d, op, err)
                return
            if werr is not None or canon(got) != canon(want):
                raise Violation('differs', '%s %r gave %r, for a fresh object %r' % (op['op'], op, got, werr or want))
            self.reference(d, op, got)
            if op['clobber'] and isinstance(got, np.ndarray) and got.size:
                got[...] = -7.

        def body(ops):
            def f():
                for i, op in enumerate(ops):
                    check(op, i)
            return f
        if len(plan['tasks']) == 1:
            body(plan['tasks'][0])()
        elif plan['tasks']:
            sched = simthread.Sched(sim, plan['switches'])
            for ops in plan['tasks']:
                sched.spawn(body(ops))
            try:
                out = sched.run()
            except simthread.Deadlock as e:
                raise Violation('deadlock', str(e))
            for _, e in out:
                if e is not None:
                    raise e
        # whatever happened, the objects still give the full answers
        for h, d in zip(objs, plan['datas']):
            for op in (dict(op='pnall'), dict(op='sigmp', form='float', s=[1.5]), dict(op='siglml', form='float', s=[1.5])):
                got, err = self.attempt(h, op)
                want, werr = self.attempt(self.make(d), op)
                if canon(got) != canon(want) or type(err) is not type(werr):
                    raise Violation('differs', 'finally %s gives %r, for a fresh object %r' % (op['op'], err or got, werr or want))

    def legit(self, d, op, err):
        if op['op'] in ('pnall', 'vlike', 'liked') or op['op'] == 'pnsig' and 0 <= op['n'] <= d['on']:
            raise Violation('spurious-error', '%s(%r) raised %r' % (op['op'], op['n'], err))
        if op['op'] == 'sigmp' and op['form'] in ('float', 'int', 'array', 'iarray', 'one', 'empty'):
            raise Violation('spurious-error', 'sigmp(%r) raised %r' % (op['s'], err))

    def reference(self, d, op, got):
        np = engines.np
        if op['op'] == 'pnall':
            if len(got) != d['on'] + 1 or not np.allclose(got, signal_probs(d), rtol=1e-7, atol=1e-12):
                raise Violation('wrong-answer', 'pnsig() of %r gives %r, should be %r' % (d, got.tolist(), signal_probs(d)))
            return
        if op['op'] == 'pnsig':
            if not 0 <= op['n'] <= d['on']:
                raise Violation('accepted', 'pnsig(%r) of %d counts gave %r' % (op['n'], d['on'], got))
            if not np.ndim(got) == 0 or abs(got - signal_probs(d)[op['n']]) > 1e-7 * abs(got) + 1e-12:
                raise Violation('wrong-answer', 'pnsig(%r) of %r gives %r, should be %r' % (op['n'], d, got, signal_probs(d)[op['n']]))
            return
        if op['op'] in ('vlike', 'liked'):
            ch = [(d['on'], d['off'])] if op['op'] == 'liked' else self.channels(d['on'], d['off'], len(op['s']))
            vals = [got[0]] if op['op'] == 'liked' else list(got[1])
            for i, ((on, off), x, y) in enumerate(zip(ch, op['s'], vals)):
                e = dict(d, on=on, off=off)
                w, dw = log_like(e, x)
                scl = onoff.slml_offset(on, d['ton'], off, d['toff'])
                if op['op'] == 'vlike' and got[0][i] != scl:
                    raise Violation('wrong-answer', 'the scale factor of channel %d is %r, on its own %r' % (i, got[0][i], scl))
                far = abs(w - scl) > 690.       # only the leading term is kept there
                tol = math.log(on + 2.) if far else 1e-7 + 3. * d['cut'] * (on + 1)
                if not abs(y + scl - w) <= tol + 1e-9 * abs(w):
                    raise Violation('wrong-answer', '%s: log likelihood of rate %r for %r is %r, should be %r' % (op['op'], x, e, y + scl, w))
                if op['op'] == 'liked':
                    if not far and got[3] != 0 or abs(w - scl) > 710. and got[3] == 0 or not 1 <= got[2] <= on + 1:
                        raise Violation('wrong-answer', 'slmliked(%r) of %r reports %d terms and status %d' % (x, e, got[2], got[3]))
                    size = d['ton'] + (on / x if x else 0.)
                    documented = x == 0 and on + off == 0       # "noff=0 gives nan"
                    if not far and not documented and not abs(got[1] - dw) <= (1e-6 + 3. * d['cut'] * (on + 1)) * size:
                        raise Violation('wrong-answer', 'slmliked: the derivative at rate %r for %r is %r, should be %r' % (x, e, got[1], dw))
            return
        f = op['form']
        s = {'float': op['s'][:1], 'int': [int(op['s'][0])], 'one': op['s'][:1], 'iarray': [int(x) for x in op['s']], 'empty': []}.get(f, op['s'])
        scalar = f in ('float', 'int')
        g = [float(got)] if scalar or np.ndim(got) == 0 else [float(x) for x in got]
        if len(g) != len(s):
            raise Violation('wrong-answer', '%s of %d rates gives %d values' % (op['op'], len(s), len(g)))
        if op['op'] == 'sigmp':
            for x, y in zip(s, g):
                w = density(d, float(x))
                if not abs(y - w) <= 1e-7 * abs(w) + 1e-200:
                    raise Violation('wrong-answer', 'sigmp(%r) of %r is %r, should be %r' % (x, d, y, w))
        else:
            # equal to the log density up to one constant per data set and the cutoff
            h = self.make(d)
            s0 = d['on'] / d['ton'] + .5
            ref = float(h.siglml(s0)) - math.log(density(d, s0))
            tol = 1e-7 + 3. * d['cut'] * (d['on'] + 1)
            for x, y in zip(s, g):
                w = density(d, float(x))
                if w > 1e-280 and abs(y - math.log(w) - ref) > tol * (1 + 1e-3 * abs(y)):
                    raise Violation('wrong-answer', 'siglml(%r) of %r is %r, should be %r' % (x, d, y, math.log(w) + ref))


def sim_hit(fault):
    fault[2] = True
    raise fault[1]


SCENARIO = P18()
