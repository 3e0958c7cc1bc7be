"""P20: a model has exactly the parameters and predictors its classes define, whatever becomes of their source files and of other classes."""

import importlib
import json
import linecache
import math
import os
import sys
import types

from . import piemodel as pm
from .core import Scenario, Violation

POOL = ['amp', 'b', 'beta', 'a', 'zeta', 'sig2', 'Q', 'x0']
PREDS = ['d1', 'd', 'early', 'late', 'A1']
KINDS = ['Chisqr', 'MaxLike', 'Bayesian']
DAMAGE = ['deleted', 'edited', 'reordered', 'truncated', 'emptied', 'unreadable', 'interrupted', 'garbage', 'directory']


class P20(Scenario):
    pid = 'P20'
    quick_runs = 9000
    rule = ('A run is a seeded history of model modules written to a scratch directory and imported, classes derived from theirs, inferences combined from signal and predictor classes, models made from those, '
            'parameters set (also before they are first read) and scores evaluated, while the source files are deleted, edited, reordered, truncated or made unreadable and models\' own name lists are rearranged by the user. After every step the names of every class and model, '
            'all parameter values, statuses and scores are compared with the plan. Non-trivial = a model was made or used after damage to its source, or a class was derived. Distinct = distinct hash of definitions, damage and operations.')
    real = ['pie.autoname', 'pie.param', 'pie.realparam', 'pie.predictor', 'pie.gaussian', 'pie.inference_base', 'pie.chisqr/maxlike/bayes']
    stub = ['the user\'s model source files (generated)', 'source file reads (tokenize.open)']
    assumptions = ['an inference class combines one signal class, one predictor class and one inference kind, as documented']

    def setup(self):
        pm.setup()
        import tokenize
        self.tok = tokenize

    # -- plans

    def gen(self, rng):
        def params(n):
            return [[p, round(rng.uniform(-2, 2), 3), rng.choice([None, None, 'doc of ' + p])] for p in rng.sample(POOL, n)]
        ops, sigs, preds, infs, insts, mods = [], [], [], [], [], []
        k = 0
        for _ in range(rng.choice([8, 14, 30])):
            r = rng.random()
            k += 1
            if r < .12 or not mods:
                op = dict(op='module', id='m%d' % k, sig='Sig%d' % k, pred='Pred%d' % k, params=params(rng.randrange(1, 6)), decoy=rng.random() < .4,
                          preds=rng.sample(PREDS, rng.randrange(1, 4)), pparams=[], spaced=rng.choice([' = ', '=', '   = ']))
                if rng.random() < .4:
                    op['pparams'] = params(rng.randrange(1, 3))
                sigs.append(op['sig'])
                preds.append(op['pred'])
                mods.append(op['id'])
            elif r < .27:
                op = dict(op='damage', id=rng.choice(mods), how=rng.choice(DAMAGE + ['restored']))
            elif r < .36:
                if rng.random() < .5:
                    op = dict(op='sub', kind='sig', id='Der%d' % k, base=rng.choice(sigs), params=params(rng.randrange(1, 3)))
                    sigs.append(op['id'])
                else:
                    op = dict(op='sub', kind='pred', id='Derp%d' % k, base=rng.choice(preds), preds=rng.sample(PREDS, rng.randrange(1, 3)), params=params(rng.choice([0, 0, 1])))
                    preds.append(op['id'])
            elif r < .5 or not infs:
                op = dict(op='infer', id='Inf%d' % k, kind=rng.choice(KINDS), sig=rng.choice(sigs), pred=rng.choice(preds), order=rng.choice([[0, 1, 2], [1, 2, 0], [2, 1, 0]]))
                infs.append(op['id'])
            elif r < .72 or not insts:
                op = dict(op='make', id='i%d' % k, inf=rng.choice(infs), lazy=rng.random() < .4)
                insts.append(op['id'])
            elif r < .84:
                op = dict(op='set', id=rng.choice(insts), n=rng.randrange(6), v=round(rng.uniform(-3, 3), 3))
            elif r < .9:
                op = dict(op='mutate', id=rng.choice(insts), how=rng.choice(['reverse', 'clear', 'append']))
            else:
                op = dict(op='score', id=rng.choice(insts))
            ops.append(op)
        return dict(ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            for key in ('params', 'preds', 'pparams'):
                if len(op.get(key) or []) > (0 if key == 'pparams' else 1):
                    p = json.loads(json.dumps(plan))
                    p['ops'][i][key].pop()
                    yield p

    # -- sources

    def source(self, op):
        s = ['from inference.pie import *', 'from dst.p20 import sigval, dset', '', 'class %s(SignalModel):' % op['sig'], '    """Generated model.']
        if op['decoy']:
            for p, v, doc in reversed(op['params']):
                s.append('    %s = the parameter %s' % (p, p))
        s += ['    """', '']
        for p, v, doc in op['params']:
            s.append('    %s%sRealParam(%r%s)' % (p, op['spaced'], v, ', %r' % doc if doc else ''))
        s += ['', '    def signal(self, x):', '        return sigval(self, x)', '', '    def log_prior(self):', '        return -1.25', '']
        s += ['class %s(PredictorSet):' % op['pred'], '']
        for p in op['preds']:
            s.append('    %s%sSampledGaussian(*dset(%r))' % (p, op['spaced'], p))
        for p, v, doc in op['pparams']:
            s.append('    %s%sRealParam(%r%s)' % (p, op['spaced'], v, ', %r' % doc if doc else ''))
        return '\n'.join(s) + '\n'

    def damage(self, path, how, src, box):
        box.pop(path, None)
        if os.path.isdir(path):
            os.rmdir(path)
        if how == 'deleted':
            if os.path.exists(path):
                os.unlink(path)
        elif how == 'directory':
            if os.path.exists(path):
                os.unlink(path)
            os.mkdir(path)
        else:
            lines = src.splitlines()
            text = {'edited': src.replace('RealParam', 'Real').replace('    ', '    p', 3), 'reordered': '\n'.join(lines[:4] + sorted(lines[4:], reverse=True)) + '\n',
                    'truncated': src[:len(src) // 3], 'emptied': '', 'garbage': '\x00\x01class ((\n' * 3}.get(how, src)
            with open(path, 'w') as f:
                f.write(text)
            if how == 'unreadable':
                box[path] = OSError(5, 'Input/output error', path)
            elif how == 'interrupted':
                box[path] = KeyboardInterrupt()
        linecache.clearcache()

    # -- runs

    def run(self, plan, sim):
        real = self.tok.open
        box = {}

        def tok_open(filename):
            e = box.get(os.path.abspath(filename))
            if e is not None:
                sim.probe('source-read-failed')
                raise e
            return real(filename)
        root = os.path.join(os.getcwd(), 'models-%d' % os.getpid())
        os.mkdir(root)
        self.tok.open = tok_open
        try:
            self.history(plan, sim, root, box)
        finally:
            self.tok.open = real
            for d, ds, fs in os.walk(root, topdown=False):
                for f in fs:
                    os.unlink(os.path.join(d, f))
                os.rmdir(d)

    def history(self, plan, sim, root, box):
        pie = importlib.import_module('inference.pie')
        mods, sigs, preds, infs, insts = {}, {}, {}, {}, {}
        for i, op in enumerate(plan['ops']):
            what = op['op']
            try:
                if what == 'module':
                    path = os.path.join(root, op['id'] + '.py')
                    src = self.source(op)
                    with open(path, 'w') as f:
                        f.write(src)
                    mod = types.ModuleType('dstmodel_' + op['id'])
                    mod.__file__ = path
                    sys.modules[mod.__name__] = mod
                    exec(compile(src, path, 'exec'), mod.__dict__)
                    mods[op['id']] = dict(path=path, src=src, how=None)
                    sigs[op['sig']] = dict(cls=mod.__dict__[op['sig']], mod=op['id'], params=[list(p) for p in op['params']])
                    preds[op['pred']] = dict(cls=mod.__dict__[op['pred']], mod=op['id'], preds=list(op['preds']), params=[list(p) for p in op['pparams']])
                elif what == 'damage':
                    if op['id'] not in mods:
                        continue
                    m = mods[op['id']]
                    self.damage(m['path'], op['how'], m['src'], box)
                    m['how'] = None if op['how'] == 'restored' else op['how']
                elif what == 'sub':
                    if op['base'] not in (sigs if op['kind'] == 'sig' else preds):
                        continue
                    base = (sigs if op['kind'] == 'sig' else preds)[op['base']]
                    d = {}
                    for p in op.get('preds', []):
                        d[p] = pie.SampledGaussian(*dset(p + op['id']))
                    for p, v, doc in op['params']:
                        d[p] = pie.RealParam(v, doc) if doc else pie.RealParam(v)
                    cls = type(base['cls'])(op['id'], (base['cls'],), d)
                    new = dict(cls=cls, mod=base['mod'], params=merge(base['params'], op['params']))
                    if op['kind'] == 'sig':
                        sigs[op['id']] = new
                    else:
                        new['preds'] = base['preds'] + [p for p in op['preds'] if p not in base['preds']]
                        new['over'] = dict(base.get('over', {}), **{p: p + op['id'] for p in op['preds']})
                        preds[op['id']] = new
                    sim.fault('derived_class')
                elif what == 'infer':
                    if op['sig'] not in sigs or op['pred'] not in preds:
                        continue
                    s, p = sigs[op['sig']], preds[op['pred']]
                    bases = [getattr(pie, op['kind'] + 'Inference'), s['cls'], p['cls']]
                    infs[op['id']] = dict(cls=type(s['cls'])(op['id'], tuple(bases[j] for j in op['order']), {}), s=op['sig'], p=op['pred'], kind=op['kind'], order=op['order'])
                elif what == 'make':
                    if op['inf'] not in infs:
                        continue
                    f = infs[op['inf']]
                    for key in sorted({sigs[f['s']]['mod'], preds[f['p']]['mod']}):
                        if mods[key]['how']:
                            sim.fault('source_' + mods[key]['how'])
                    self.make(sim, op, f, sigs[f['s']], preds[f['p']], insts)
                elif op['id'] not in insts:
                    continue
                elif what == 'set':
                    m = insts[op['id']]
                    names = m['names']
                    name = names[op['n'] % len(names)]
                    setattr(m['model'], name, op['v'])
                    m['values'][name] = op['v']
                    if name not in m['read']:
                        m['read'].append(name)
                elif what == 'mutate':
                    m = insts[op['id']]
                    for lst in (m['model'].params, m['model'].predictors):
                        if op['how'] == 'append':
                            lst.append('nonsense')
                        else:
                            getattr(lst, op['how'])()
                    m['mutated'] = True
                else:
                    self.score(sim, insts[op['id']], op['id'])
            except Exception as e:
                if isinstance(e, Violation):
                    raise
                raise Violation('spurious-error', 'step %d (%s) raised %r' % (i, what, e))
            except KeyboardInterrupt:
                raise Violation('spurious-error', 'step %d (%s) was interrupted reading a source file' % (i, what))
            sim.op(what)
            sim.shape(op)
            sim.log(i, what)
            self.check(sim, sigs, preds, insts, 'after step %d (%s)' % (i, what))
        for name, m in insts.items():
            self.score(sim, m, name)

    def make(self, sim, op, f, s, p, insts):
        pie_err = importlib.import_module('inference.pie.inference_base').InferenceError
        names = [x[0] for x in s['params']] + [x[0] for x in p['params']]
        preds = list(p['preds'])
        dup = len(set(names)) != len(names)
        clash = set(names) & set(preds)
        try:
            model = f['cls']()
        except pie_err as e:
            if not dup:
                raise Violation('spurious-error', 'making a model with parameters %r raised %r' % (names, e))
            sim.probe('duplicate-refused')
            return
        if dup:
            raise Violation('unrefused', 'a model with duplicated parameter names %r was made: %r' % (names, model.params))
        if clash:
            return
        over = p.get('over', {})
        insts[op['id']] = dict(model=model, names=names, preds=preds, sets=[over.get(q, q) for q in preds], kind=f['kind'], values={x[0]: x[1] for x in s['params'] + p['params']},
                               docs={x[0]: x[2] for x in s['params'] + p['params']}, signames=[x[0] for x in s['params']], mutated=False, read=[] if op.get('lazy') else list(names))

    def check(self, sim, sigs, preds, insts, when):
        sim.ok()
        for name, s in sigs.items():
            want = [x[0] for x in s['params']]
            if list(s['cls'].param_names) != want:
                raise Violation('class-names', '%s the class %s lists the parameters %r, it defines %r' % (when, name, s['cls'].param_names, want))
        for name, p in preds.items():
            want = [x[0] for x in p['params']]
            if list(getattr(p['cls'], 'param_names', [])) != want:
                raise Violation('class-names', '%s the class %s lists the parameters %r, it defines %r' % (when, name, p['cls'].param_names, want))
            if list(p['cls'].predictor_names) != p['preds']:
                raise Violation('class-names', '%s the class %s lists the predictors %r, it defines %r' % (when, name, p['cls'].predictor_names, p['preds']))
        for name, m in insts.items():
            sim.ok()
            model = m['model']
            if not m['mutated']:
                if list(model.params) != m['names']:
                    raise Violation('model-names', '%s the model %s has the parameters %r, its classes define %r' % (when, name, model.params, m['names']))
                if list(model.predictors) != m['preds']:
                    raise Violation('model-names', '%s the model %s has the predictors %r, its classes define %r' % (when, name, model.predictors, m['preds']))
            for q in m['read']:
                v = getattr(model, q)
                if float(v) != m['values'][q]:
                    raise Violation('wrong-value', '%s parameter %s of model %s is %r, expected %r' % (when, q, name, v, m['values'][q]))
                if m['docs'][q] and v.doc != m['docs'][q]:
                    raise Violation('wrong-value', '%s parameter %s of model %s has doc %r, expected %r' % (when, q, name, v.doc, m['docs'][q]))
            if sorted(h.name for h in model.fixed_params) != sorted(m['read']) or model.varying_params or model.stepping_params:
                raise Violation('wrong-status', '%s the fixed parameters of model %s are %r' % (when, name, [h.name for h in model.fixed_params]))

    def score(self, sim, m, name):
        sim.ok()
        m['read'] = list(m['names'])
        for q in m['names']:
            getattr(m['model'], q)
        got = float(m['model'].score())
        chi2 = 0.
        for q in m['sets']:
            for x, y, s in zip(*dset(q)):
                f = sum(c * x ** i for i, c in enumerate(m['values'][n] for n in sorted(m['signames'])))
                chi2 += ((y - f) / s) ** 2
        want = {'Chisqr': chi2, 'MaxLike': -.5 * chi2, 'Bayesian': -.5 * chi2 - 1.25}[m['kind']]
        if not abs(got - want) <= 1e-9 * (1 + abs(want)):
            raise Violation('wrong-score', 'the score of model %s is %r, its %d predictors and parameters give %r' % (name, got, len(m['preds']), want))


def merge(old, new):
    """Parameters of a derived class: inherited ones first, redefined ones in place."""
    out = [list(p) for p in old]
    for p in new:
        for q in out:
            if q[0] == p[0]:
                q[:] = p
                break
        else:
            out.append(list(p))
    return out


def sigval(model, x):
    names = sorted(model_params(model))
    return sum(float(getattr(model, n)) * x ** i for i, n in enumerate(names))


def model_params(model):
    """Names of the parameters of a model's signal classes, found by inspection alone."""
    from inference.pie import SignalModel, RealParam, PredictorSet
    found = []
    for cls in type(model).__mro__:
        if issubclass(cls, SignalModel) and not issubclass(cls, PredictorSet):
            for k, v in cls.__dict__.items():
                if isinstance(v, RealParam) and k not in found:
                    found.append(k)
    return found


def dset(name):
    """Data of the predictor called `name`."""
    import numpy as np
    h = sum(ord(c) * (i + 3) for i, c in enumerate(name))
    n = 3 + h % 4
    return np.array([(i - 1.) / 2 for i in range(n)]), np.array([math.sin(h + i) for i in range(n)]), np.array([.5 + .1 * (i % 3) for i in range(n)])


SCENARIO = P20()
