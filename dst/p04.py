"""P04: a saved random-number state resumes the exact stream, whatever fails in between."""

import json
import os

from . import core, simfs, stores
from .core import Scenario, Violation

ERR = ['enospc', 'full', 'eio_write', 'eacces', 'eio_rename', 'emfile']
CRASH = ['crash', 'crash', 'crash_after', 'torn']
RD = ['eio_read', 'eio_open', 'emfile', 'short_read']
SUF = ('', '.1', '.2')


def key(st):
    return (st[0], st[1].tobytes(), int(st[2]), int(st[3]), float(st[4]))


class P04(Scenario):
    pid = 'P04'
    quick_runs = 12000
    list_fields = ('ops',)
    rule = ('A run is a seeded history of draws, saves, restores, kills and damage to checkpoint files with disk errors '
            'and kills injected inside saves and restores; non-trivial = a fault fired. Distinct = distinct hash of '
            'operation kinds, fault kinds/points and outcomes.')
    real = ['inference.utils.rng', 'numpy.random legacy generator, pickle']
    stub = ['disk and process life: wrapper over open/os.* on a scratch directory (errors, torn writes, kills)']
    assumptions = ['rename is atomic and ordered after the data it names (journalled metadata)']

    def setup(self):
        global rng_mod, npr
        stores.setup()
        import inference.utils.rng as m
        rng_mod = m
        import numpy.random as r
        npr = r

    def gen(self, rng):
        mode = rng.choice(['clean', 'crash', 'error', 'mixed'])
        kinds = {'clean': [], 'crash': CRASH, 'error': ERR, 'mixed': ERR + CRASH}[mode]

        def faults(extra):
            if not kinds or rng.random() < 0.45:
                return []
            return [dict(at=rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 7]), kind=rng.choice(kinds if not extra or rng.random() < .3 else extra),
                         frac=round(rng.random(), 2)) for _ in range(1 if rng.random() < 0.85 else 2)]
        ops = []
        for _ in range(rng.randrange(4, 26)):
            r = rng.random()
            f = rng.choice([0, 0, 0, 1])
            if r < 0.30:
                ops.append(['draw', rng.choice(['normal', 'normal', 'uniform', 'int', 'poisson']), rng.choice([1, 1, 2, 3, 5, 700])])
            elif r < 0.34:
                ops.append(['seed', rng.randrange(1 << 20)])
            elif r < 0.62:
                ops.append(['save', f, faults(None)])
            elif r < 0.86:
                ops.append(['restore', f, rng.random() < 0.5, faults(RD)])
            elif r < 0.91:
                ops.append(['damage', f, rng.choice(['truncate', 'empty', 'id', 'legacy', 'delete', 'junk', 'readonly', 'noread'])])
            else:
                ops.append(['kill'])
        return dict(seed=rng.randrange(1 << 20), buf=rng.choice([64, 1024, 8192]), ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            if isinstance(op[-1], list) and op[-1]:
                for j in range(len(op[-1])):
                    c = json.loads(json.dumps(plan))
                    del c['ops'][i][-1][j]
                    yield c
            if op[0] == 'draw' and op[2] > 1:
                c = json.loads(json.dumps(plan))
                c['ops'][i][2] = 1
                yield c

    def run(self, plan, sim):
        w = stores.World(sim, plan['buf'])
        here = os.getcwd()
        os.chdir(w.root)
        try:
            self._run(plan, sim, w)
        finally:
            os.chdir(here)
            w.close()

    def _run(self, plan, sim, w):
        npr.seed(plan['seed'])
        ref = npr.RandomState(plan['seed'])        # the reference stream
        names = ['.numpy-rng-state', 'ck']
        with open('notes', 'wb') as f:
            f.write(b'mine')
        count = [0]
        states = {}              # id -> full state tuple
        chain = [[None] * 3, [None] * 3]
        damaged = {}             # (f, level) never appears: damaged files are ids < 0

        def draw(r, kind, n):
            if kind == 'normal':
                return r.standard_normal(n)
            if kind == 'uniform':
                return r.random_sample(n)
            if kind == 'int':
                return r.randint(0, 1000, n)
            return r.poisson(3.5, n)

        def same_state(why):
            if key(npr.get_state()) != key(ref.get_state()):
                a, b = npr.get_state(), ref.get_state()
                raise Violation('wrong-state', '%s the generator state is not the expected one (position %d vs %d, cached '
                                'deviate %d vs %d)' % (why, a[2], b[2], a[3], b[3]))
            sim.ok()

        def ident(f, lvl):
            """Which saved state a level holds, read through restore_rng on a copy."""
            p = w.path(names[f] + SUF[lvl])
            if not os.path.exists(p):
                return None
            import shutil
            cp = os.path.join(w.aside, 'ck')
            shutil.copyfile(p, cp)
            keep = npr.get_state()
            try:
                npr.seed(4711)
                rng_mod.restore_rng(cp, False)
                got = key(npr.get_state())
            except Exception:
                got = None
            finally:
                npr.set_state(keep)
            if got is not None:
                cur = chain[f] + sorted(states, reverse=True)
                for i in cur:
                    if i is not None and i >= 0 and key(states[i]) == got:
                        return i
                return 'other'
            with open(p, 'rb') as fo:
                b = fo.read()
            for i, s in damaged.items():
                if s == b:
                    return i
            return 'garbage'

        def look(f):
            return [ident(f, l) for l in range(3)]

        def same_as(a, b):
            """Equal chains, where two ids may name equal states."""
            def kk(x):
                return key(states[x]) if x in states else damaged.get(x, x)
            return [kk(x) for x in a] == [kk(x) for x in b]

        def rotated(c):
            if c[0] is None:
                return list(c)
            if c[1] is None:
                return [None, c[0], c[2]]
            return [None, c[0], c[1]]

        def others(f, why):
            for g in range(2):
                if g != f and not same_as(look(g), chain[g]):
                    raise Violation('other-file-changed', 'after %s the versions of %r changed' % (why, names[g]))
            with open(w.path('notes'), 'rb') as fo:
                if fo.read() != b'mine':
                    raise Violation('other-file-changed', 'after %s an unrelated file changed' % why)
            sim.ok()

        def settle_save(f, out, val, fired, before, new, why):
            now = look(f)
            sim.log('chain', f, before, now)
            if out == 'ok':
                goal = rotated(before)
                goal[0] = new
                if not same_as(now, goal):
                    raise Violation('wrong-chain', '%s: after %s (versions were %r) the levels hold %r, expected %r'
                                    % (names[f], why, before, now, goal))
            else:
                if not fired:
                    raise Violation('unprovoked-error', '%s failed although nothing went wrong: %r' % (why, val))
                seq = [x for x in now if x is not None]
                old = [x for x in before if x is not None]
                keep = [x for x in rotated(before) if x is not None]
                if not any(same_as(seq, c) for c in (old, keep, [new] + old, [new] + keep)):
                    raise Violation('lost-state', '%s: after %s failed (%r) versions %r became %r'
                                    % (names[f], why, [x[0] for x in fired], before, now))
                sim.probe('failed_save')
                if seq and same_as(seq[:1], [new]):
                    pass
            chain[f] = now
            sim.ok()
            others(f, why)

        def restart():
            w.fs.restart()
            # a fresh process: its generator starts somewhere else
            npr.seed(plan['seed'] ^ 0x5a5a)
            ref.seed(plan['seed'] ^ 0x5a5a)

        for no, op in enumerate(plan['ops']):
            sim.op(op[0])
            if op[0] == 'draw':
                a, b = draw(npr, op[1], op[2]), draw(ref, op[1], op[2])
                if a.tobytes() != b.tobytes():
                    raise Violation('wrong-stream', 'the generator gives other numbers than the saved stream')
                sim.ok()
            elif op[0] == 'seed':
                npr.seed(op[1])
                ref.seed(op[1])
            elif op[0] == 'kill':
                restart()
            elif op[0] == 'damage':
                f = op[1]
                p = w.path(names[f])
                if chain[f][0] is None:
                    continue
                if op[2] == 'delete':
                    os.remove(p)
                    chain[f][0] = None
                    continue
                if op[2] in ('readonly', 'noread'):
                    sim.fault('permission:' + op[2])
                    os.chmod(p, 0o444 if op[2] == 'readonly' else 0)
                    continue
                if chain[f][0] < 0:
                    continue
                os.chmod(p, 0o644)
                sim.fault('damaged:' + op[2])
                st = states[chain[f][0]]
                with open(p, 'rb') as fo:
                    b = fo.read()
                import pickle
                if op[2] == 'legacy':
                    # the two-component form written by earlier releases
                    with open(p, 'wb') as fo:
                        pickle.dump(('MT19937', (st[1], st[2])), fo)
                    count[0] += 1
                    states[count[0]] = ('MT19937', st[1], st[2], 0, 0.0)
                    chain[f][0] = count[0]
                    continue
                b = {'truncate': b[:len(b) // 2], 'empty': b'', 'junk': b'\x00junk' * 30,
                     'id': pickle.dumps(('PCG64', (st[1], st[2], st[3], st[4])))}[op[2]]
                with open(p, 'wb') as fo:
                    fo.write(b)
                count[0] += 1
                damaged[-count[0]] = b
                chain[f][0] = -count[0]
            elif op[0] == 'save':
                f = op[1]
                before = list(chain[f])
                count[0] += 1
                new = count[0]
                states[new] = npr.get_state()
                call = (lambda: rng_mod.save_rng()) if f == 0 else (lambda: rng_mod.save_rng(w.path(names[f])))
                out, val, fired = w.call(no, op[2], call)
                same_state('after saving')
                settle_save(f, out, val, fired, before, new, 'a save')
            elif op[0] == 'restore':
                f = op[1]
                before = list(chain[f])
                was = npr.get_state()
                if f == 0:
                    call = lambda: rng_mod.restore_rng(notify=op[2])
                else:
                    call = lambda: rng_mod.restore_rng(w.path(names[f]), op[2])
                if before[0] is None:
                    count[0] += 1
                    new = count[0]
                    states[new] = was
                    out, val, fired = w.call(no, op[3], call)
                    same_state('after restoring from a missing file')
                    settle_save(f, out, val, fired, before, new, 'a first restore')
                else:
                    perm = os.stat(w.path(names[f])).st_mode & 0o600
                    out, val, fired = w.call(no, op[3], call)
                    if not same_as(look(f), before):
                        raise Violation('restore-changed-file', 'a restore changed the saved versions from %r to %r'
                                        % (before, look(f)))
                    if not perm & 0o400:
                        if out == 'ok':
                            raise Violation('unreadable-accepted', 'restoring from an unreadable file reported success')
                        sim.probe('unreadable_refused')
                        same_state('after a refused restore')
                    elif before[0] < 0:
                        if out == 'ok':
                            raise Violation('damaged-accepted', 'restoring from a damaged file reported success')
                        sim.probe('damaged_refused')
                        same_state('after a refused restore')
                    elif out == 'ok':
                        ref.set_state(states[before[0]])
                        same_state('after restoring')
                        sim.probe('restored')
                    elif out == 'error':
                        if perm == 0o600 and not [x for x in fired if x[0] != 'short_read']:
                            raise Violation('restore-failed', 'restoring a saved state failed: %r' % (val,))
                        sim.probe('restore_failed')
                        same_state('after a failed restore')
            if w.fs.dead:
                sim.probe('killed')
                restart()
        for f in range(2):
            if chain[f][0] is not None and chain[f][0] >= 0:
                os.chmod(w.path(names[f]), 0o644)
                out, val, fired = w.call(10 ** 6, [], lambda: rng_mod.restore_rng(w.path(names[f]), False))
                if out != 'ok':
                    raise Violation('restore-failed', 'restoring a saved state failed: %r' % (val,))
                ref.set_state(states[chain[f][0]])
                same_state('at the end, after restoring')
                for kind in ('normal', 'uniform', 'normal', 'poisson'):
                    if draw(npr, kind, 3).tobytes() != draw(ref, kind, 3).tobytes():
                        raise Violation('wrong-stream', 'the restored generator gives other numbers')
                sim.ok()


SCENARIO = P04()
