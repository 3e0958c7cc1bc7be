"""P22: samples of weighted populations come from the shared random stream alone, whatever was drawn, refused or failed before."""

import ctypes
import json
import math
import os
import signal

from . import engines, pps
from .core import Scenario, Violation

population = pwlinear = None
libc = None


class P22(Scenario):
    pid = 'P22'
    quick_runs = 12000
    rule = ('A run is a seeded history of samples with and without replacement (both methods, sizes allowed and refused) of 1-3 weighted populations and piecewise-linear densities, mixed with other uses of the '
            'random-number generator, which is also put into states that give planned words (edges of the tables, extremes); calls into the compiled sampler run out of memory or are followed by an interrupt at planned points. Each sample and the state of the generator after it are compared with a reference '
            'implementation that starts from the generator\'s state. Non-trivial = a fault fired or a request was refused. Distinct = distinct hash of populations, requests, faults and outcomes.')
    real = ['mc.population', 'mc.pwlinear', 'mc: sampford.c, compact5table.c, randomkit.c (compiled from the tree)']
    stub = ['the binding _ppssampler.c (Python 2 only; transcribed with ctypes)', 'equally probable choices (the binding draws them with rand())']
    assumptions = ['populations are sampled by one thread at a time', 'sizes at which a member becomes certain are a known finding and otherwise not requested']

    def setup(self):
        global population, pwlinear, libc
        engines.setup()
        import importlib
        pps.load()
        libc = ctypes.CDLL(None)
        population, pwlinear = importlib.import_module('inference.mc.population'), importlib.import_module('inference.mc.pwlinear')

    def gen(self, rng):
        objs = []
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < .65:
                n = rng.choice([2, 3, 5, 8, 12, 12])
                w = rng.choice([lambda: rng.uniform(.5, 2.), lambda: rng.randrange(1, 5), lambda: rng.choice([1., 1., 0., 3.]), lambda: 1.])
                o = dict(kind='popn', w=[w() for _ in range(n)], items=rng.choice([None, 'text', 'array']), equal=rng.random() < .1, arr=rng.random() < .5)
                if not o['equal'] and rng.random() < .2:
                    o['items'], o['one_d'], o['err'] = 'array', [rng.choice([1., 2., 3.5, -4., 7.25]) + .01 * i for i in range(n)], rng.random() < .5
                    rng.shuffle(o['one_d'])
                if rng.random() < .05:
                    o['w'] = [1.] * rng.choice([49, 93, 99, 105])
                    o.pop('one_d', None)
                if sum(1 for x in o['w'] if x) < 2:
                    o['w'][0] = o['w'][1] = 1.
            else:
                n = rng.choice([2, 3, 6, 15])
                o = dict(kind='pw', n=n, shape=rng.choice(['bump', 'two', 'flat', 'steps', 'ints']), log=rng.random() < .4, absc=rng.random() < .3, cut=rng.choice([1e-9, 1e-9, .05, 0.]), lst=rng.random() < .3,
                         v=[rng.choice([0., 1., 2., 3., 5.]) for _ in range(n)])
                if o['log'] and o['cut'] == 0.:
                    o['cut'] = 1e-9
            objs.append(o)
        ops = []
        for _ in range(rng.choice([3, 6, 12])):
            q = rng.randrange(len(objs))
            kinds = ['sample', 'pps', 'pps', 'pps', 'pps5', 'pps5', 'pps5', 'max', 'draws'] if objs[q]['kind'] == 'popn' else ['sample', 'one', 'pdf', 'pdfs', 'draws']
            op = dict(o=q, op=rng.choice(kinds), n=rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 6, rng.choice([0, -1, 30, 'all'])]), u=rng.choice([0., 1., rng.random()]), fault=None)
            if rng.random() < .4:
                # the words the generator gives next: at the edges of the sampler's tables, or the extremes
                op['words'] = [[rng.choice(['first', 'last', 'over', 'mid', 'zero', 'top']), rng.randrange(5), rng.random() < .5] for _ in range(rng.randrange(1, 7))]
            if rng.random() < .35:
                op['fault'] = [rng.choice([0, 1, 2, 3, 4, 5]), rng.random() < .5]
            ops.append(op)
        return dict(objs=objs, ops=ops, seed=rng.randrange(1 << 30))

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            for key in ('fault', 'words'):
                if op.get(key):
                    p = json.loads(json.dumps(plan))
                    p['ops'][i][key] = None
                    yield p

    # -- objects

    def items(self, o):
        n = len(o['w'])
        return {None: list(range(n)), 'text': ['item%d' % i for i in range(n)], 'array': [10 * i + 3 for i in range(n)]}[o['items']]

    def sorted(self, o):
        """A population indexed by a quantity keeps its members in the order of that quantity."""
        if not o.get('one_d'):
            return self.items(o), o['w']
        k = sorted(range(len(o['w'])), key=lambda i: o['one_d'][i])
        return [o['one_d'][i] for i in k], [o['w'][i] for i in k]

    def build(self, o):
        np = engines.np
        if o['kind'] == 'popn':
            it = self.items(o)
            given = np.array(it) if o['items'] == 'array' else it
            if o['equal']:
                return population.Population(given if o['items'] else len(it)), [given]
            w = np.array(o['w']) if o['arr'] else list(o['w'])
            if o.get('one_d'):
                v, e = np.array(o['one_d']), [.1 * x for x in o['w']]
                h = population.Population1D(v, w, e if o['arr'] else np.array(e)) if o['err'] else population.Population1D(v, w)
                return h, [w, v, e]
            h = population.Population(weights=w) if o['items'] is None else population.Population(given, w)
            return h, [w, given]
        v, x, kw = self.values(o)
        if o['absc']:
            h = pwlinear.PWLinear(absc=x, vals=v, logvals=o['log'], cut=o['cut'])
        else:
            h = pwlinear.PWLinear(1., 4., v, logvals=o['log'], cut=o['cut'])
        return h, [v, x]

    def values(self, o):
        np = engines.np
        n = o['n']
        u = [i / (n - 1.) for i in range(n)]
        f = {'bump': [math.exp(-.5 * ((t - .4) / .1) ** 2) for t in u], 'two': [math.exp(-.5 * ((t - .15) / .02) ** 2) + .7 * math.exp(-.5 * ((t - .8) / .03) ** 2) for t in u], 'flat': [2.] * n,
             'steps': list(o['v']), 'ints': [int(t) for t in o['v']]}[o['shape']]
        if max(f) < 1e-6:
            f[0] = 1
        if o['log']:
            f = [int(10 * t) - 20 if o['shape'] == 'ints' else math.log(t + 1e-30) - 300. for t in f]
        x = [1. + 3. * t ** (2. if o['absc'] else 1.) for t in u]
        return (list(f) if o['lst'] else np.array(f)), np.array(x), None

    def pieces(self, o):
        """Intervals of the density that count, their end densities (unnormalized) and weights."""
        f, x, _ = self.values(o)
        f = [float(t) for t in f]
        m = max(f)
        w = [math.exp(t - m) if t - m > math.log(o['cut']) else 0. for t in f] if o['log'] else [t / m for t in f]
        sel = [t > o['cut'] for t in w]
        out = []
        for i in range(len(w) - 1):
            if sel[i] or sel[i + 1]:
                out.append((float(x[i]), float(x[i + 1]), w[i], w[i + 1], .5 * (w[i] + w[i + 1]) * (float(x[i + 1]) - float(x[i]))))
        return out

    # -- reference

    def size(self, o, op):
        """The size asked for; borderline sizes (a member would be certain) are turned into 1."""
        n, w = op['n'], o['w']
        if n == 'all':
            return len(w)
        share = max(w) / float(sum(w))
        if n > 1 and n != len(w) and .9 < n * share < 1.1:
            return 1
        if n > 10 and n * share < 1:
            return 10                           # the rejection loops take as long as the sample is large
        return n

    def expect(self, o, op, rs):
        """(value, refused) of the operation on a generator in state rs."""
        np = engines.np
        k = op['op']
        if o['kind'] == 'pw':
            pc = self.pieces(o)
            if k in ('pdf', 'pdfs'):
                tot = sum(p[4] for p in pc)

                def pdf(x):
                    for lo, hi, a, b, _ in pc:
                        if lo <= x <= hi:
                            return (a + (b - a) * (x - lo) / (hi - lo)) / tot
                    return 0.
                return (pdf(1. + 3. * op['u']) if k == 'pdf' else [pdf(x) for x in self.points(op)]), False
            wt = np.array([p[4] for p in pc])
            wt /= wt.sum()
            used = self.probe(o)
            if used is not None and used.shape == wt.shape and np.allclose(used / used.sum(), wt, rtol=1e-9, atol=1e-15):
                wt = used                       # equal up to rounding, to which the tables are sensitive
            t = pps.Tables(wt)
            n = None if k == 'one' else max(op['n'], 1) if isinstance(op['n'], int) else 5
            idx = [t.draw(rs) for _ in range(n or 1)]
            us = [float(rs.random_sample()) for _ in idx]
            out = []
            for i, u in zip(idx, us):
                lo, hi, a, b, _ = pc[i]
                out.append(lo + (hi - lo) * u if a == b else lo + (hi - lo) * (math.sqrt(a * a + (b * b - a * a) * u) - a) / (b - a))
            return (out[0] if n is None else out), False
        it, w = self.sorted(o)
        if k == 'max':
            return int(sum(w) / max(w)), False
        n = self.size(o, op)
        if k == 'sample':
            if o['equal'] or n < 1:
                return None, True
            t = pps.Tables(w)
            return [it[t.draw(rs)] for _ in range(n)], False
        if n == len(w):
            return list(it), False
        if o['equal']:
            return 'choice', not 0 < n < len(w)
        if n < 1 or n > len(w) or n * max(w) / float(sum(w)) > 1:
            return None, True
        return [it[i] for i in pps.sampford(w, n, rs, k == 'pps5')], False

    def probe(self, o):
        """The weights a fresh object hands to the sampler."""
        np = engines.np
        keep, libs = np.random.get_state(), pps.get_rng_state()
        pps.Fault.weights = None
        try:
            self.build(o)[0].sample()
        except Exception:
            pass
        np.random.set_state(keep)
        pps.set_rng_state(*libs)
        return pps.Fault.weights

    def call(self, h, o, op):
        k = op['op']
        if o['kind'] == 'pw':
            if k == 'pdf':
                return h.pdf(1. + 3. * op['u'])
            if k == 'pdfs':
                x = self.points(op)
                return h.pdf(engines.np.array(x) if len(x) % 2 else x)
            if k == 'one':
                return h.sample()
            return h.sample(max(op['n'], 1) if isinstance(op['n'], int) else 5)
        if k == 'max':
            return h.max_subset()
        n = self.size(o, op)
        return {'sample': h.sample, 'pps': h.subset_pps, 'pps5': h.subset_pps5}[k](n)

    def points(self, op):
        return [1. + 3. * t for t in (op['u'], .5, 0., 1., .123, -.1, 1.1)][:2 + len(op['op'] * (op['o'] + 1)) % 5]

    def words(self, sim, o, op):
        """Put the generator into a state from which it gives the planned words."""
        np = engines.np
        if o['kind'] == 'pw':
            w = [p[4] for p in self.pieces(o)]
        else:
            w = self.sorted(o)[1]
        tabs = [pps.Tables(w)]
        n = self.size(o, op) if o['kind'] == 'popn' else 0
        if n > 1 and n * max(w) / float(sum(w)) < 1:
            s = sorted((x / float(sum(w)) for x in w), reverse=True)
            tabs.append(pps.Tables([x / (1. - n * x) for x in s]))
        out = []
        for where, k, second in op['words']:
            start, sh, tab = tabs[second and len(tabs) - 1].t[k]
            end = start + (len(tab) << sh)
            j = {'first': start, 'last': end - 1, 'over': end, 'mid': (start + end) // 2, 'zero': 0, 'top': (1 << 30) - 1}[where]
            out.append((min(max(j, 0), (1 << 30) - 1) << 2) + 3 * second)
            sim.probe('word-%s-%d' % (where, k))
        st = np.random.get_state()
        key = st[1].copy()
        pos = st[2]
        if pos + len(out) > 624:
            np.random.bytes(4 * (625 - pos))    # start a new block
            st = np.random.get_state()
            key, pos = st[1].copy(), st[2]
        for i, x in enumerate(out):
            key[pos + i] = pps.untemper(x)
        np.random.set_state((st[0], key, pos) + st[3:])

    def state(self, rs):
        s = rs.get_state()
        return s[0], s[1].tobytes().hex(), int(s[2]), int(s[3]), float(s[4]).hex()

    def applies(self, o, op):
        k = op['op']
        if k == 'draws':
            return True
        if o['kind'] == 'pw':
            return k in ('sample', 'one') or k in ('pdf', 'pdfs') and not o['absc']
        return k in ('sample', 'pps', 'pps5') or k == 'max' and not o['equal']

    def run(self, plan, sim):
        np, canon = engines.np, engines.canon
        np.seterr(all='ignore')
        np.random.seed(plan['seed'])
        if plan.get('_k') == 0:
            self.limit(sim)
        objs = []
        for o in plan['objs']:
            h, given = self.build(o)
            objs.append((h, given, canon(given)))
            sim.shape(o['kind'], o.get('items'), o.get('shape'), o.get('log'), len(o.get('w', [])))
            if o['kind'] == 'pw':
                self.refuse(sim)
            else:
                self.mismatch(o)
                if o.get('one_d'):
                    self.hazard(o, h)
        for i, op in enumerate(plan['ops']):
            if not objs:
                return
            q = op['o'] % len(objs)
            (h, given, _), o = objs[q], plan['objs'][q]
            if not self.applies(o, op):
                continue
            if op['op'] == 'draws':
                sim.op('draws')
                [np.random.rand, np.random.standard_normal, lambda: np.random.randint(9)][i % 3]()
                continue
            if op.get('words'):
                self.words(sim, o, op)
            rs = np.random.RandomState()
            rs.set_state(np.random.get_state())
            before = self.state(rs)
            want, refused = self.expect(o, op, rs)
            after = self.state(rs)
            popn = o['kind'] == 'popn'
            if op['fault'] and popn:
                pps.Fault.arm(op['fault'][0], KeyboardInterrupt('injected') if op['fault'][1] else MemoryError('injected'), op['fault'][1])
            libc.srand(ctypes.c_uint(plan['seed'] ^ i))
            sim.op(op['op'])
            got = err = None
            try:
                got = self.call(h, o, op)
            except BaseException as e:
                err = e
            fired = pps.Fault.fired
            pps.Fault.clear()
            now = self.state(np.random)
            sim.log(i, op['op'], op['n'], repr(err), repr(got))
            sim.shape(op['op'], op['n'], op['fault'], type(err).__name__)
            what = '%s(%r) of %s' % (op['op'], op['n'], 'a population with weights %r' % (o['w'],) if popn else 'a piecewise-linear density')
            if fired is not None:
                sim.fault('interrupt_after_sampler' if op['fault'][1] else 'memory_in_sampler')
                if err is not fired:
                    raise Violation('wrong-error', '%s: the sampler raised %r, the caller got %r' % (what, fired, err or got))
                if now != before:
                    raise Violation('generator', '%s failed, but the generator is not where it was' % what)
            elif err is not None:
                sim.nontrivial = True
                if not refused:
                    raise Violation('spurious-error', '%s raised %r, should give %r' % (what, err, want))
                if not isinstance(err, (ValueError, NotImplementedError)):
                    raise Violation('wrong-error', '%s should be refused, it raised %r' % (what, err))
                if now != before:
                    raise Violation('generator', '%s was refused, but the generator is not where it was' % what)
                sim.probe('refused')
            else:
                sim.ok()
                if refused:
                    raise Violation('accepted', '%s should be refused, it gave %r' % (what, got))
                self.compare(sim, o, op, what, got, want)
                if not (popn and o['equal']) and now != after:
                    raise Violation('generator', '%s left the generator where it should not be (number drawn, or cached normal deviate lost)' % what)
            for h2, g, c in objs:
                if canon(g) != c:
                    raise Violation('input-changed', 'arrays passed in by the caller changed after %s' % what)

    def compare(self, sim, o, op, what, got, want):
        np = engines.np
        if o['kind'] == 'pw':
            ref = np.array(want, float)
            g = np.array(got, float)
            tol = 1e-6 * (1. + np.abs(ref)) if op['op'] in ('pdf', 'pdfs') else 1e-6
            if g.shape != ref.shape or not (np.abs(g - ref) <= tol).all():
                raise Violation('wrong', '%s (%r) gave %r, should be %r' % (what, o, got, want))
            return
        if isinstance(want, str):
            n = self.size(o, op)
            g = [str(x) for x in got]
            if len(g) != n or len(set(g)) != n or not set(g) <= {str(x) for x in self.sorted(o)[0]}:
                raise Violation('wrong', '%s gave %r' % (what, got))
            return
        if op['op'] == 'max':
            if got != want:
                raise Violation('wrong', '%s gave %r, should be %r' % (what, got, want))
            return
        if [str(x) for x in got] != [str(x) for x in want]:
            raise Violation('wrong', '%s gave %r, should be %r' % (what, got, want))

    def refuse(self, sim):
        np = engines.np
        for kw, exc in [(dict(vals=np.ones(4)), ValueError), (dict(vals=np.ones(4), absc=np.arange(3.)), ValueError), (dict(lo=1., hi=2., vals=np.ones(4), step='log'), NotImplementedError)]:
            try:
                pwlinear.PWLinear(**kw)
            except exc:
                continue
            raise Violation('accepted', 'a piecewise-linear density was made from %r' % (kw,))

    def mismatch(self, o):
        it = self.items(o)
        for items in (it[:-1], it + it[:1]):
            try:
                population.Population(items, o['w'])
            except ValueError:
                continue
            raise Violation('accepted', 'a population of %d items was made from %d weights' % (len(items), len(o['w'])))

    def hazard(self, o, h):
        """The points of the curve lie at the members; error bars belong to their members; nothing handed out is shared."""
        np = engines.np
        v = self.sorted(o)[0]
        for lo, hi in ((v[0] + 1e-3, None), (None, v[-1] - 1e-3)):
            try:
                h.haz_pts(lo, hi)
            except ValueError:
                continue
            raise Violation('accepted', 'a hazard curve was given on a range that leaves out members')
        for lo, hi in ((None, None), (v[0] - 1., v[-1] + 1.)):
            r = h.haz_pts(lo, hi)
            a, b = (v[0] if lo is None else lo), (v[-1] if hi is None else hi)
            want = [a] + [x for x in v for _ in (0, 1)] + [b]
            if len(r) != (5 if o['err'] else 2) or not np.array_equal(r[0], want) or len(r[1]) != len(want) or r[1][0] != 1. or r[1][-1] != 0.:
                raise Violation('wrong', 'the hazard curve of members at %r has points %r' % (v, r))
            if o['err']:
                mid = [.5 * (x + y) for x, y in zip(v, v[1:] + [b])]
                e = [.1 * x for x in self.sorted(o)[1]]
                if not (np.allclose(r[2], mid) and np.allclose(r[4], e) and len(r[3]) == len(v)):
                    raise Violation('wrong', 'error bars of members at %r with errors %r are %r' % (v, e, r[2:]))
            for a in r:
                a.fill(99.)

    def limit(self, sim):
        """The known finding: at the size where a member's inclusion becomes certain the rejection loop never ends."""
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(2)
                population.Population(weights=[2., 1., 1., 1., 1.]).subset_pps(3)
            except ValueError:
                pass
            finally:
                os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            raise Violation('limit-hang', 'subset_pps(3) of a population with weights [2, 1, 1, 1, 1] (the first is certain) does not return')


SCENARIO = P22()
