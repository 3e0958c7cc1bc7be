"""P01: no failed, killed or power-cut save ever loses saved data."""

import os

from . import core, simfs, stores
from .core import Scenario, Violation

NAMES = ['a', 'b', 'c', 'data', 'x1']
ERR = ['enospc', 'full', 'eio_write', 'eacces', 'eio_rename', 'emfile']
CRASH = ['crash', 'crash', 'crash_after', 'torn']
MILD = ['short', 'short_read']


class P01(Scenario):
    pid = 'P01'
    quick_runs = 4800
    rule = ('A run is a seeded history of assignments, saves, reopenings, kills and power cuts over 2 store files '
            'and up to 3 live stores; non-trivial = at least one injected fault fired inside a save. Distinct = '
            'distinct hash of the sequence of operation kinds, fault kinds/points and outcomes.')
    real = ['inference.utils.ioutils (ArrayStore, AttrStore, backup, safe_open)', 'numpy savez/load, zipfile, pickle']
    stub = ['disk and process life: wrapper over open/os.* on a scratch directory (errors, short/torn writes, full disk, kill, power cut)']
    assumptions = ['metadata operations (rename, unlink) are journalled and ordered', 'data older than 30 simulated '
                   'seconds or fsynced is durable']

    def setup(self):
        stores.setup()

    def gen(self, rng):
        kinds = [rng.choice(['arr', 'attr']) for _ in range(2)]
        files = [dict(kind=k, name='f%d' % i) for i, k in enumerate(kinds)]
        mode = rng.choice(['crash', 'error', 'mixed', 'power', 'clean', 'retry'])
        nops = rng.randrange(4, 22)
        ops = []
        vid = [rng.randrange(1, 1000)]

        def nv():
            vid[0] += rng.randrange(1, 60)
            return vid[0]

        def faults():
            if mode == 'clean' or rng.random() < 0.35:
                return []
            kind = {'crash': CRASH, 'error': ERR, 'mixed': CRASH + ERR + MILD, 'power': CRASH,
                    'retry': ERR}[mode]
            fs = [dict(at=rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 15, 20]), kind=rng.choice(kind),
                       frac=round(rng.random(), 2))]
            if rng.random() < 0.2:
                fs.append(dict(at=rng.randrange(0, 25), kind=rng.choice(kind), frac=round(rng.random(), 2)))
            return fs

        ops.append(['new', 0, 0])
        for _ in range(rng.randrange(1, 4)):
            ops.append(['set', 0, rng.choice(NAMES), nv()])
        ops.append(['save', 0, 0, True, []])
        for _ in range(nops):
            r = rng.random()
            slot = rng.randrange(3)
            f = rng.randrange(2)
            if r < 0.08:
                ops.append(['new', slot, f])
            elif r < 0.18:
                ops.append(['open', slot, f])
            elif r < 0.42:
                ops.append(['set', slot, rng.choice(NAMES), nv()])
            elif r < 0.48:
                ops.append(['touch', slot, rng.choice(NAMES)])
            elif r < 0.52:
                ops.append(['bad', slot, rng.choice(NAMES)])
            elif r < 0.60:
                ops.append(['wait', rng.choice([1, 5, 20, 31, 40])])
            elif r < 0.66 and mode in ('power', 'crash', 'mixed'):
                ops.append(['kill', mode == 'power' or rng.random() < 0.2])
            else:
                n = 1 if mode != 'retry' else rng.randrange(1, 5)
                for _ in range(n):
                    ops.append(['save', slot, f, rng.random() < 0.5, faults()])
        return dict(files=files, buf=rng.choice([32, 200, 8192, 8192]), ops=ops, prng=rng.randrange(1 << 30))

    def simplify(self, plan):
        import json
        for i, op in enumerate(plan['ops']):
            if op[0] == 'save' and op[4]:
                for j in range(len(op[4])):
                    c = json.loads(json.dumps(plan))
                    del c['ops'][i][4][j]
                    yield c
                for j, f in enumerate(op[4]):
                    if f['at'] > 0:
                        c = json.loads(json.dumps(plan))
                        c['ops'][i][4][j]['at'] = f['at'] // 2
                        yield c
            if op[0] == 'set' and op[3] > 5:
                c = json.loads(json.dumps(plan))
                c['ops'][i][3] = op[3] % 5 + 1 + i * 0
                yield c

    def run(self, plan, sim):
        w = stores.World(sim, plan['buf'])
        try:
            self._run(plan, sim, w)
        finally:
            w.close()

    def _run(self, plan, sim, w):
        import random
        files = plan['files']
        # Bystanders: files that no save may touch.
        by = {'notes.txt': b'mine', 'f0': b'bare name', 'f0.npz.bak': b'copy', 'f1.pkl.old': b'copy2', 'g.npz%': b'other'}
        for n, c in by.items():
            with open(w.path(n), 'wb') as f:
                f.write(c)
        # Model: per file all versions ever attempted, index of the last acknowledged one.
        M = [dict(versions=[], acked=None, acktime=None, base=0) for _ in files]
        slots = [None] * 3      # (store, kind, {name: vid}, file or None)
        rng = random.Random(plan['prng'])

        def fname(f):
            return files[f]['name'] + stores.EXT[files[f]['kind']]

        def check_bystanders(target):
            for n, c in by.items():
                with open(w.path(n), 'rb') as f:
                    if f.read() != c:
                        raise Violation('bystander-changed', 'file %r, which no save names, was altered' % n)
            sim.ok()

        def recoverable(f, why):
            """The last acknowledged version, or a later complete one, is the
            newest thing found under the name or its first backup."""
            m = M[f]
            if m['acked'] is None:
                # nothing was ever saved: whatever lies there must be a complete attempt, if readable
                lv = w.match(files[f]['kind'], fname(f), m['versions'])
                if lv == 'garbage':
                    raise Violation('torn-file', '%s: after %s the file under its own name is unreadable' % (fname(f), why))
                if lv == 'other':
                    raise Violation('wrong-content', '%s: after %s the file holds something never saved' % (fname(f), why))
                sim.ok()
                return
            for lvl, suf in enumerate(('', '%')):
                lv = w.match(files[f]['kind'], fname(f) + suf, m['versions'])
                sim.log('level', fname(f), suf, lv)
                if lv == 'garbage':
                    raise Violation('torn-file', '%s: after %s the newest file %r is unreadable'
                                    % (fname(f), why, fname(f) + suf))
                if lv == 'other':
                    raise Violation('wrong-content', '%s: after %s file %r holds something never saved'
                                    % (fname(f), why, fname(f) + suf))
                if lv != 'absent':
                    if lv < m['acked']:
                        raise Violation('lost-version', '%s: after %s the newest recoverable version is number %d, but '
                                        'number %d had been saved' % (fname(f), why, lv, m['acked']))
                    sim.probe('recovered_level_%d' % lvl)
                    sim.ok()
                    return
            raise Violation('lost-data', '%s: after %s neither the file nor its first backup exists, though version '
                            '%d had been saved' % (fname(f), why, m['acked']))

        def all_recoverable(why):
            for f in range(len(files)):
                recoverable(f, why)
            check_bystanders(None)

        def kill(power):
            for i in range(3):
                slots[i] = None
            w.fs.restart()
            if not power:
                return
            lost = w.fs.power_cut(rng)
            sim.log('power', lost)
            sim.fault('power_cut')
            for f, m in enumerate(M):
                if m['acked'] is None:
                    m['versions'] = []
                    for suf in ('', '%', '%%'):
                        if os.path.exists(w.path(fname(f) + suf)):
                            os.remove(w.path(fname(f) + suf))
                    continue
                settled = sim.time - m['acktime'] >= stores.WRITEBACK
                found = {}
                for suf in ('', '%', '%%'):
                    found[suf] = w.match(files[f]['kind'], fname(f) + suf, m['versions'])
                best = [(suf, v) for suf, v in found.items() if isinstance(v, int)]
                sim.log('levels', fname(f), found, settled)
                if settled:
                    good = [(s, v) for s, v in best if s in ('', '%') and v >= m['acked']]
                    if not good:
                        raise Violation('lost-settled-version', '%s: version %d had been saved and was durable, but '
                                        'after the power cut the levels hold %r' % (fname(f), m['acked'], found))
                    sim.probe('settled_version_survived')
                sim.ok()
                # The operator puts the newest readable level back in place.
                pick = max(best, key=lambda t: t[1]) if best else None
                data = None
                if pick:
                    with open(w.path(fname(f) + pick[0]), 'rb') as fo:
                        data = fo.read()
                for suf in ('', '%', '%%'):
                    if os.path.exists(w.path(fname(f) + suf)):
                        os.remove(w.path(fname(f) + suf))
                if pick:
                    with open(w.path(fname(f)), 'wb') as fo:
                        fo.write(data)
                    m['versions'] = [m['versions'][pick[1]]]
                    m['acked'] = 0
                    m['acktime'] = sim.time - 2 * stores.WRITEBACK
                else:
                    m.update(versions=[], acked=None, acktime=None)

        for no, op in enumerate(plan['ops']):
            sim.op(op[0])
            sim.time += 0.25
            if op[0] == 'wait':
                sim.time += op[1]
            elif op[0] == 'new':
                kind = files[op[2]]['kind']
                slots[op[1]] = [stores.new_store(kind), kind, {}, None]
            elif op[0] == 'open':
                f = op[2]
                m = M[f]
                lv = w.match(files[f]['kind'], fname(f), m['versions'])
                if not isinstance(lv, int):
                    continue
                out, val, fired = w.call(no, [], lambda: stores.open_store(files[f]['kind'], w.path(files[f]['name'])))
                if out != 'ok':
                    raise Violation('open-failed', 'opening a complete store failed: %r' % (val,))
                slots[op[1]] = [val, files[f]['kind'], dict(m['versions'][lv]), f]
            elif op[0] == 'set':
                s = slots[op[1]]
                if s is None:
                    continue
                setattr(s[0], op[2], stores.make(s[1], op[3]))
                s[2][op[2]] = op[3]
            elif op[0] == 'touch':
                s = slots[op[1]]
                if s is None or op[2] not in s[2]:
                    continue
                out, val, fired = w.call(no, [], lambda: getattr(s[0], op[2]))
                if out != 'ok' or not stores.same(s[1], s[2][op[2]], val):
                    raise Violation('wrong-value', 'attribute %s reads %r' % (op[2], val))
            elif op[0] == 'bad':
                # A value the store cannot keep: the save must fail and harm nothing.
                s = slots[op[1]]
                if s is None or s[1] != 'attr':
                    continue
                old = {n: getattr(s[0], n) for n in [op[2]] if op[2] in s[2]}
                setattr(s[0], op[2], stores.Unpicklable())
                tgt = [i for i, f in enumerate(files) if f['kind'] == 'attr']
                if tgt:
                    sim.fault('unpicklable')
                    out, val, fired = w.call(no, [], lambda: s[0].save(w.path(files[tgt[0]]['name'])))
                    if out == 'ok':
                        raise Violation('bad-save-accepted', 'saving an unpicklable value reported success')
                    all_recoverable('a save rejected because a value cannot be pickled')
                slots[op[1]] = None
            elif op[0] == 'kill':
                kill(op[1])
                if not op[1]:
                    sim.fault('kill_between_ops')
                all_recoverable('a kill between operations')
            elif op[0] == 'save':
                s = slots[op[1]]
                f = op[2]
                if s is None:
                    continue
                if s[1] != files[f]['kind']:
                    f = 1 - f
                    if s[1] != files[f]['kind']:
                        continue
                m = M[f]
                snap = dict(s[2])
                if s[3] == f and not op[3]:
                    fn = lambda: s[0].save()
                else:
                    fn = lambda: s[0].save(w.path(files[f]['name'] if no % 2 else fname(f)))
                m['versions'].append(snap)
                vi = len(m['versions']) - 1
                out, val, fired = w.call(no, op[4], fn)
                if out == 'ok':
                    m['acked'], m['acktime'] = vi, sim.time
                    why = 'a save that reported success'
                elif out == 'error':
                    if not fired:
                        raise Violation('save-failed', 'a save failed although nothing went wrong: %r' % (val,))
                    why = 'a save that failed with %r' % (val,)
                else:
                    if not fired:
                        raise core.HarnessError('crash without fault')
                    why = 'a kill during a save'
                    kill(False)
                all_recoverable(why)
        # Faults stop: every live store can be saved and read back.
        for i, s in enumerate(slots):
            if s is None:
                continue
            f = [j for j, x in enumerate(files) if x['kind'] == s[1]][0]
            M[f]['versions'].append(dict(s[2]))
            out, val, fired = w.call(10 ** 6, [], lambda: s[0].save(w.path(files[f]['name'])))
            if out != 'ok':
                raise Violation('no-recovery', 'after faults stopped a save still fails: %r' % (val,))
            M[f]['acked'], M[f]['acktime'] = len(M[f]['versions']) - 1, sim.time
            all_recoverable('the final save')


SCENARIO = P01()
