"""P03: backup rotation keeps the two previous versions, in order, and nothing else changes."""

import json
import os

from . import core, simfs, stores
from .core import Scenario, Violation

RN = ['eacces', 'eio_rename', 'crash', 'crash', 'crash_after', 'crash_after']
WR = RN + ['enospc', 'eio_write', 'torn', 'full']
SUF = ('', '%', '%%')


class P03(Scenario):
    pid = 'P03'
    quick_runs = 15000
    list_fields = ('ops',)
    rule = ('A run is a seeded history of backup/safe-open/store-save/delete operations over 3 names with rename, open and '
            'write errors and kills injected inside them; non-trivial = a fault fired. Distinct = distinct hash of '
            'operation kinds, fault kinds/points, outcomes and resulting chain shapes.')
    real = ['inference.utils.ioutils (backup, safe_open, ArrayStore.save, AttrStore.save)']
    stub = ['disk and process life: wrapper over open/os.* on a scratch directory (errors, kills)']
    assumptions = ['rename is atomic']

    def setup(self):
        stores.setup()

    def gen(self, rng):
        mode = rng.choice(['clean', 'crash', 'error', 'mixed'])
        kinds = {'clean': [], 'crash': ['crash', 'crash_after', 'torn'],
                 'error': ['eacces', 'eio_rename', 'enospc', 'eio_write', 'emfile'], 'mixed': WR}[mode]

        def faults():
            if not kinds or rng.random() < 0.5:
                return []
            fs = [dict(at=rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 6]), kind=rng.choice(kinds), frac=round(rng.random(), 2))]
            if rng.random() < 0.15:
                fs.append(dict(at=rng.choice([1, 2, 3, 4]), kind=rng.choice(kinds), frac=round(rng.random(), 2)))
            return fs
        ops = []
        for _ in range(rng.randrange(3, 26)):
            f = rng.choice([0, 0, 1, 2, 3])
            r = rng.random()
            if f >= 2:
                ops.append(['save', f, faults()] if r < 0.85 else ['del', f, rng.randrange(3)])
            elif r < 0.2:
                ops.append(['backup', f, rng.random() < 0.3, faults()])
            elif r < 0.7:
                ops.append(['open', f, rng.choice(['t', 'T', 'b', 'o', 'ob', 'oa', 'ok']), rng.random() < 0.3, faults()])
            elif r < 0.8:
                ops.append(['put', f])
            elif r < 0.9:
                ops.append(['del', f, rng.randrange(3)])
            else:
                ops.append(['kill'])
        return dict(buf=rng.choice([16, 8192]), ops=ops, dot=rng.random() < 0.5)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            if isinstance(op[-1], list) and op[-1]:
                for j in range(len(op[-1])):
                    c = json.loads(json.dumps(plan))
                    del c['ops'][i][-1][j]
                    yield c

    def run(self, plan, sim):
        w = stores.World(sim, plan['buf'])
        here = os.getcwd()
        os.chdir(w.root)
        try:
            self._run(plan, sim, w)
        finally:
            os.chdir(here)
            w.close()

    def _run(self, plan, sim, w):
        iou, np = stores.iou, stores.np
        names = ['out.dat' if plan['dot'] else 'out', 'x%', 'st.npz', 'at.pkl']
        by = {'other.txt': b'1', 'out.dat.bak': b'2', 'out%.dat': b'3', 'st': b'4', 'at.pkl~': b'5', 'x': b'6', 'ou': b'7'}
        for n, c in by.items():
            with open(w.path(n), 'wb') as f:
                f.write(c)
        chain = {n: [None, None, None] for n in names}      # version ids (bytes tokens) per level
        count = [0]

        def newid():
            count[0] += 1
            return count[0]

        def ident(f, suf):
            """What lies at a level: None, a version id, or 'garbage'."""
            p = w.path(names[f] + suf)
            if not os.path.lexists(p):
                return None
            if f < 2:
                with open(p, 'rb') as fo:
                    b = fo.read()
                try:
                    s = b.decode()
                    i = int(s.split(':')[0])
                    return i if s == text(i) else 'garbage'
                except ValueError:
                    return 'garbage'
            try:
                got = w.read_copy('arr' if f == 2 else 'attr', names[f] + suf)
                i = int(got['v'][0])
                return i if list(got) == ['v'] and len(got['v']) == 1 + i % 40 else 'garbage'
            except Exception:
                return 'garbage'

        def text(i):
            return '%d:' % i + 'y' * (i * 13 % 60) + '\n'

        def look(f):
            return [ident(f, s) for s in SUF]

        def rotated(c):
            if c[0] is None:
                return list(c)
            if c[1] is None:
                return [None, c[0], c[2]]
            return [None, c[0], c[1]]

        def scan(f, why):
            allowed = set(by)
            for n in names:
                allowed.update(n + s for s in SUF)
            for n, c in by.items():
                try:
                    with open(w.path(n), 'rb') as fo:
                        same = fo.read() == c
                except OSError:
                    same = False
                if not same:
                    raise Violation('bystander-changed', 'after %s the unrelated file %r is gone or altered' % (why, n))
            for g in range(4):
                if g != f and look(g) != chain[names[g]]:
                    raise Violation('other-chain-changed', 'after %s the versions of %r changed from %r to %r'
                                    % (why, names[g], chain[names[g]], look(g)))
            sim.ok()

        def settle(f, out, val, fired, before, goals, why):
            """goals: chains allowed after success; on failure also every
            state the rotation may stop in."""
            now = look(f)
            sim.log('chain', names[f], before, now)
            sim.shape(out, [x is None for x in now])
            if out == 'ok':
                if now not in goals:
                    raise Violation('wrong-chain', '%s: after %s (versions were %r) the levels hold %r, expected %r'
                                    % (names[f], why, before, now, goals[0]))
            else:
                if not fired:
                    raise Violation('unprovoked-error', '%s: %s failed although nothing went wrong: %r' % (names[f], why, val))
                r = rotated(before)
                newid_ = [g[0] for g in goals if g[0] is not None and g[0] not in before]
                seq = [x for x in now if x is not None]
                if f < 2 and seq and seq[0] == 'garbage' and now[0] == 'garbage' and newid_:
                    seq = seq[1:]            # the version the caller was writing when killed
                    now_old = [None] + now[1:]
                else:
                    now_old = list(now)
                if newid_ and seq and seq[0] == newid_[0]:
                    seq = seq[1:]
                    now_old = [None] + now[1:]
                old = [x for x in before if x is not None]
                keep = [x for x in r if x is not None]
                if seq not in (old, keep):
                    raise Violation('lost-version', '%s: after %s failed (%r) versions %r became %r'
                                    % (names[f], why, [x[0] for x in fired], before, now))
                if before[0] is None and now_old != before:
                    raise Violation('rotated-nothing', '%s: %s failed (%r) with no file under the name, and versions %r became %r'
                                    % (names[f], why, [x[0] for x in fired], before, now))
                sim.probe('failed_rotation')
            if now[0] == 'garbage' and f < 2:
                # the caller's own half-written file: the caller removes it
                os.remove(w.path(names[f]))
                now = [None] + now[1:]
            if 'garbage' in now:
                raise Violation('torn-file', '%s: after %s the levels hold %r' % (names[f], why, now))
            chain[names[f]] = now
            sim.ok()
            scan(f, why)

        live = {}
        for no, op in enumerate(plan['ops']):
            sim.op(op[0])
            if op[0] == 'kill':
                live.clear()
                w.fs.restart()
                scan(None, 'a kill')
                continue
            f = op[1]
            n = names[f]
            before = list(chain[n])
            if op[0] == 'put':
                i = newid()
                with open(w.path(n), 'wb') as fo:
                    fo.write(text(i).encode())
                chain[n][0] = i
            elif op[0] == 'del':
                if chain[n][op[2]] is not None:
                    os.remove(w.path(n + SUF[op[2]]))
                    chain[n][op[2]] = None
            elif op[0] == 'backup':
                target = n if op[2] else w.path(n)
                out, val, fired = w.call(no, op[3], lambda: iou.backup(target))
                settle(f, out, val, fired, before, [rotated(before)], 'a backup')
            elif op[0] == 'open':
                i = newid()
                how = op[2]
                target = n if op[3] else w.path(n)
                calls = []

                def act():
                    if how == 't':
                        fo = iou.safe_open(target)
                    elif how == 'T':
                        fo = iou.safe_open(target, binary=False)
                    elif how == 'b':
                        fo = iou.safe_open(target, [True, 'b'][no % 2])
                    else:
                        res = []

                        def opener(*a, **k):
                            calls.append((a, k, look(f)))
                            res.append(open(target, 'w'))
                            return res[0]
                        if how == 'o':
                            fo = iou.safe_open(target, opener=opener)
                            want = ((target,), {})
                        elif how == 'ob':
                            fo = iou.safe_open(target, True, opener, 'p', 3)
                            want = ((target, 'p', 3), {})
                        elif how == 'oa':
                            fo = iou.safe_open(target, False, opener, 'p', q=1)
                            want = ((target, 'p'), {'q': 1})
                        else:
                            fo = iou.safe_open(target, opener=opener, mode='x', z=None)
                            want = ((target,), {'mode': 'x', 'z': None})
                        if len(calls) != 1 or calls[0][:2] != want or fo is not res[0]:
                            raise Violation('opener', 'opener calls %r, expected one call %r' % (calls, want))
                        if calls[0][2] != rotated(before):
                            raise Violation('opener-early', 'the opener ran with levels %r' % (calls[0][2],))
                    fo.write(text(i).encode() if how == 'b' else text(i))
                    fo.close()
                out, val, fired = w.call(no, op[4], act)
                if isinstance(val, Violation):
                    raise val
                goal = rotated(before)
                goal[0] = i
                settle(f, out, val, fired, before, [goal], 'a safe open')
            elif op[0] == 'save':
                i = newid()
                kind = 'arr' if f == 2 else 'attr'
                st = live.get(f)
                if st is None or i % 3 == 0:
                    st = stores.new_store(kind)
                live[f] = st
                st.v = np.full(1 + i % 40, i)
                out, val, fired = w.call(no, op[2], lambda: st.save(w.path(n if i % 2 else n[:-4])))
                goal = rotated(before)
                goal[0] = i
                settle(f, out, val, fired, before, [goal], 'a store save')
            if w.fs.dead:
                sim.probe('killed')
                live.clear()
                w.fs.restart()
                scan(None, 'a kill')


SCENARIO = P03()
