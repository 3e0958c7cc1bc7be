"""P02: a store behaves as the dictionary of what was assigned to it."""

import json
import os

from . import core, simfs, stores
from .core import Scenario, Violation

NAMES = ['a', 'b', 'c', 'data', 'x1', 'fname', 'new', 'files', 'file', 'f', 'name', 'archive', 'arr_0', 'allow_pickle']
RD = ['eio_read', 'eio_read', 'eio_read', 'eio_open', 'emfile', 'short_read']
WR = ['enospc', 'eio_write', 'eacces', 'eio_rename']


def plain(v):
    """Value kept in the model: a private copy."""
    import copy
    return copy.deepcopy(v)


def eq(want, got):
    np = stores.np
    if isinstance(want, np.ndarray):
        return stores.same_array(want, got)
    if type(want) is not type(got):
        return False
    return want == got


def short(v):
    s = repr(v).replace('\n', ' ')
    return s if len(s) < 90 else s[:90] + '...'


class P02(Scenario):
    pid = 'P02'
    quick_runs = 12000
    list_fields = ('ops',)
    rule = ('A run is a seeded history of assign/read/mutate/list/save/reopen operations over up to 4 live stores on 3 '
            'files with read and write errors injected into single operations; non-trivial = a fault fired or two stores '
            'shared a file. Distinct = distinct hash of operation kinds, fault kinds/points and outcomes.')
    real = ['inference.utils.ioutils (ArrayStore, AttrStore, backup)', 'numpy savez/load, zipfile, pickle']
    stub = ['disk: wrapper over open/os.* on a scratch directory (read, open, write and rename errors, short reads and writes)']
    assumptions = ['subclasses of arrays are stored as plain arrays', 'attribute names do not collide '
                   'with the method names save and contents or start with an underscore']

    def setup(self):
        stores.setup()

    def gen(self, rng):
        kinds = [rng.choice(['arr', 'attr']) for _ in range(3)]
        files = [dict(kind=k, name=rng.choice(['f%d', 'd%d.v', 'n%d.npz.x', '%d'][:]) % i) for i, k in enumerate(kinds)]
        mode = rng.choice(['clean', 'read', 'read', 'mixed', 'share'])
        names = rng.sample(NAMES, rng.randrange(2, 6))
        vid = [rng.randrange(1, 1000)]

        def nv():
            vid[0] += rng.randrange(1, 60)
            return vid[0]

        def faults(kinds):
            if mode in ('clean', 'share') or rng.random() < 0.45:
                return []
            if mode == 'read':
                kinds = RD
            return [dict(at=rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 8, 12]), kind=rng.choice(kinds), frac=0.5)
                    for _ in range(1 if rng.random() < 0.8 else 2)]

        ops = []
        for f in range(3):
            if rng.random() < 0.8:
                ops.append(['new', f, f, [[n, nv()] for n in names if rng.random() < 0.6]])
                ops.append(['save', f, f, True, rng.random() < 0.5, []])
        nf = 1 if mode == 'share' else 3
        for _ in range(rng.randrange(6, 40)):
            r = rng.random()
            slot, f, n = rng.randrange(4), rng.randrange(nf), rng.choice(names)
            if r < 0.06:
                ops.append(['new', slot, f, [[m, nv()] for m in names if rng.random() < 0.4]])
            elif r < 0.20:
                ops.append(['open', slot, f, rng.random() < 0.5, faults(RD)])
            elif r < 0.36:
                ops.append(['set', slot, n, nv()])
            elif r < 0.56:
                ops.append(['get', slot, n, faults(RD)])
            elif r < 0.61:
                ops.append(['mutate', slot, n, nv()])
            elif r < 0.65:
                ops.append(['bad', slot, n])
            elif r < 0.69:
                ops.append(['has', slot, n])
            elif r < 0.78:
                ops.append(['list', slot])
            elif r < 0.80:
                ops.append(['openmissing', slot, f])
            else:
                ops.append(['save', slot, f, rng.random() < 0.5, rng.random() < 0.5, faults(RD + WR)])
        return dict(files=files, buf=rng.choice([32, 200, 8192]), ops=ops)

    def simplify(self, plan):
        for i, op in enumerate(plan['ops']):
            if op[0] in ('save', 'get', 'open') and op[-1]:
                for j in range(len(op[-1])):
                    c = json.loads(json.dumps(plan))
                    del c['ops'][i][-1][j]
                    yield c
            if op[0] == 'new':
                for j in range(len(op[3])):
                    c = json.loads(json.dumps(plan))
                    del c['ops'][i][3][j]
                    yield c

    def run(self, plan, sim):
        w = stores.World(sim, plan['buf'])
        try:
            self._run(plan, sim, w)
        finally:
            w.close()

    def _run(self, plan, sim, w):
        files = plan['files']
        M = [None] * 3               # contents of each file, as {name: value}
        slots = [None] * 4           # [store, kind, {name: value}, own file or None]

        def fname(f):
            return files[f]['name'] + stores.EXT[files[f]['kind']]

        def hard(fired):
            """Injected faults that may legitimately make the call fail."""
            return [x for x in fired if x[0] not in ('short', 'short_read')]

        def check_file(f, allowed, why):
            """File f holds exactly one of the allowed contents."""
            if all(a is None for a in allowed):
                if os.path.exists(w.path(fname(f))):
                    raise Violation('unexpected-file', '%s exists after %s' % (fname(f), why))
                return None
            if not os.path.exists(w.path(fname(f))):
                if None in allowed:
                    return None
                # an error half way through the rotation may leave it under its backup name
                return 'absent'
            got = w.read_copy(files[f]['kind'], fname(f))
            for a in allowed:
                if a is not None and sorted(a) == sorted(got) and all(eq(a[n], got[n]) for n in a):
                    sim.ok()
                    return a
            raise Violation('wrong-file', '%s after %s holds %s' % (fname(f), why, short(
                {n: got[n] for n in sorted(got)})))

        def check_store(s, why):
            st, kind, model, own = s
            got = st.contents()
            if sorted(got) != sorted(model):
                raise Violation('wrong-names', 'after %s the store lists %r, but it holds %r'
                                % (why, sorted(got), sorted(model)))
            sim.ok()

        for no, op in enumerate(plan['ops']):
            sim.op(op[0])
            s = slots[op[1]]
            if op[0] == 'new':
                kind = files[op[2]]['kind']
                vals = {n: stores.make(kind, v) for n, v in op[3]}
                if kind == 'attr' and no % 2:
                    vals.pop('fname', None)
                    st = stores.iou.AttrStore(**vals)
                else:
                    st = stores.new_store(kind)
                    for n, v in vals.items():
                        setattr(st, n, v)
                slots[op[1]] = [st, kind, {n: plain(v) for n, v in vals.items()}, None]
            elif op[0] == 'open':
                f = op[2]
                p = w.path(fname(f) if op[3] else files[f]['name'])
                out, val, fired = w.call(no, op[4], lambda: stores.open_store(files[f]['kind'], p))
                if M[f] is None:
                    if out == 'ok':
                        raise Violation('phantom-store', 'opening a store that was never saved succeeded')
                    continue
                if out == 'error':
                    if not hard(fired):
                        raise Violation('open-failed', 'opening a saved store failed: %r' % (val,))
                    sim.probe('open_failed')
                    continue
                if any(t is not None and t[3] == f for t in slots):
                    sim.nontrivial = True
                slots[op[1]] = [val, files[f]['kind'], {n: plain(v) for n, v in M[f].items()}, f]
                check_store(slots[op[1]], 'opening it')
            elif op[0] == 'openmissing':
                out, val, fired = w.call(no, [], lambda: stores.open_store(files[op[2]]['kind'], w.path('nothing-here')))
                if out == 'ok' or os.path.exists(w.path('nothing-here' + stores.EXT[files[op[2]]['kind']])):
                    raise Violation('phantom-store', 'opening a missing file succeeded or created it')
            elif s is None:
                continue
            elif op[0] == 'set':
                v = stores.make(s[1], op[3])
                setattr(s[0], op[2], v)
                s[2][op[2]] = plain(v)
            elif op[0] == 'get':
                st, n = s[0], op[2]
                out, val, fired = w.call(no, op[3], lambda: getattr(st, n))
                if n not in s[2]:
                    if out == 'ok':
                        raise Violation('phantom-attribute', 'attribute %s, never assigned, reads %s' % (n, short(val)))
                    if not fired and not isinstance(val, AttributeError):
                        raise Violation('wrong-error', 'a missing attribute raises %r' % (val,))
                    continue
                if out == 'ok':
                    if not eq(s[2][n], val):
                        raise Violation('wrong-value', 'attribute %s reads %s, not %s' % (n, short(val), short(s[2][n])))
                    sim.ok()
                    continue
                if not hard(fired):
                    raise Violation('get-failed', 'reading attribute %s failed: %r' % (n, val))
                if isinstance(val, AttributeError):
                    raise Violation('hidden-error', 'a read error on attribute %s was reported as a missing attribute: %r'
                                    % (n, val))
                sim.probe('get_failed')
                # the error was transient: a retry works
                out, val, fired = w.call(no, [], lambda: getattr(st, n))
                if out != 'ok' or not eq(s[2][n], val):
                    raise Violation('no-retry', 'after a transient read error attribute %s reads %s' % (n, short(val)))
                sim.probe('get_retried')
            elif op[0] == 'has':
                out, val, fired = w.call(no, [], lambda: hasattr(s[0], op[2]))
                if out != 'ok' or val != (op[2] in s[2]):
                    raise Violation('wrong-has', 'hasattr(%s) says %r' % (op[2], val))
                if op[2] not in s[2] and hasattr(s[0], op[2]):
                    raise Violation('wrong-has', 'second hasattr(%s) says True' % op[2])
                sim.ok()
            elif op[0] == 'mutate':
                if op[2] not in s[2]:
                    continue
                out, val, fired = w.call(no, [], lambda: getattr(s[0], op[2]))
                if out != 'ok' or not eq(s[2][op[2]], val):
                    raise Violation('wrong-value', 'attribute %s reads %s, not %s' % (op[2], short(val), short(s[2][op[2]])))
                np = stores.np
                if isinstance(val, np.ndarray) and val.size:
                    new = str(op[3] % 1000) if val.dtype.kind == 'U' else op[3] % 2
                    val.flat[val.size - 1] = new
                    m = s[2][op[2]]
                    m.flat[m.size - 1] = new
                elif isinstance(val, list):
                    val.append(op[3])
                    s[2][op[2]].append(op[3])
            elif op[0] == 'bad':
                if s[1] != 'arr':
                    continue
                try:
                    setattr(s[0], op[2], [1, 2, 3])
                except ValueError:
                    sim.ok()
                else:
                    raise Violation('bad-value-accepted', 'an array store accepted a list')
                check_store(s, 'a rejected assignment')
                if op[2] in s[2]:
                    out, val, fired = w.call(no, [], lambda: getattr(s[0], op[2]))
                    if out != 'ok' or not eq(s[2][op[2]], val):
                        raise Violation('wrong-value', 'after a rejected assignment attribute %s reads %s'
                                        % (op[2], short(val)))
            elif op[0] == 'list':
                check_store(s, 'some operations')
            elif op[0] == 'save':
                f = op[2]
                named = op[3]
                if not named and s[3] is None:
                    before = stores.digest_dir(w.root)
                    out, val, fired = w.call(no, [], lambda: s[0].save())
                    if out == 'ok':
                        raise Violation('nameless-save', 'saving a store that has no file name succeeded')
                    if stores.digest_dir(w.root) != before:
                        raise Violation('nameless-save', 'a refused save changed files')
                    continue
                if not named:
                    f = s[3]
                    fn = lambda: s[0].save()
                else:
                    if files[f]['kind'] != s[1]:
                        continue
                    p = w.path(fname(f) if op[4] else files[f]['name'])
                    fn = lambda: s[0].save(p)
                out, val, fired = w.call(no, op[5], fn)
                new = {n: plain(v) for n, v in s[2].items()}
                if out == 'ok':
                    M[f] = check_file(f, [new], 'a successful save')
                    if M[f] == 'absent':
                        raise Violation('unsaved', '%s does not exist after a successful save' % fname(f))
                else:
                    if not hard(fired):
                        raise Violation('save-failed', 'a save failed although nothing went wrong: %r' % (val,))
                    sim.probe('save_failed')
                    why = 'a save that failed with %r' % (val,)
                    got = check_file(f, [M[f], new], why)
                    if got == 'absent':
                        # put the first backup back, as a user would
                        if not os.path.exists(w.path(fname(f) + '%')):
                            raise Violation('lost-file', '%s: neither the file nor its backup exists after %s' % (fname(f), why))
                        os.rename(w.path(fname(f) + '%'), w.path(fname(f)))
                        got = check_file(f, [M[f], new], why + ' (backup put back)')
                    M[f] = got
                    check_store(s, why)
                # other files are untouched
                for g in range(3):
                    if g != f and M[g] is not None:
                        check_file(g, [M[g]], 'a save to another file')
        # At the end every attribute of every live store reads as the model says.
        for s in slots:
            if s is None:
                continue
            check_store(s, 'the history')
            for n in sorted(s[2]):
                out, val, fired = w.call(10 ** 6, [], lambda: getattr(s[0], n))
                if out != 'ok' or not eq(s[2][n], val):
                    raise Violation('wrong-value', 'at the end attribute %s reads %s, not %s'
                                    % (n, short(val), short(s[2][n])))
                sim.ok()
        for f in range(3):
            if M[f] is not None:
                check_file(f, [M[f]], 'the history')


SCENARIO = P02()
