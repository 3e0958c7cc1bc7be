"""
Simulated world of persistent stores: real ArrayStore/AttrStore objects on the
simulated disk, and a small reference model (dictionaries of value ids).
"""

import json
import os
import pickle
import random
import shutil

from . import simfs
from .core import Violation

WRITEBACK = 30.0        # simulated seconds after which written data is durable

iou = None
np = None


def setup():
    global iou, np
    simfs.install()
    import numpy
    np = numpy
    import inference.utils.ioutils as m
    iou = m


# ----------------------------------------------------------------------------
# values: small integers name values; `make` builds the real one, always equal

class Unpicklable:
    def __reduce__(self):
        raise TypeError('this object refuses to be pickled')


def make(kind, v):
    """The value number v for a store of the given kind ('arr' or 'attr')."""
    r = random.Random(v * 7919 + 13)
    size = [1, 3, 17, 200, 1500][v % 5]
    if kind == 'arr' or v % 3 == 0:
        dt = ['f8', 'i8', 'f4', 'u1', 'c16', 'bool', 'U5', 'O', '>f8'][v % 9]
        vals = [r.randrange(0, 200) + (v % 97) for _ in range(size)]
        if dt == 'U5':
            a = np.array([str(x) for x in vals])
        elif dt == 'O':
            a = np.array([(x, str(x), None, x / 3)[x % 4] for x in vals], dtype=object)
        else:
            a = np.array(vals).astype(dt)
            if dt in ('f8', 'f4', 'c16', '>f8'):
                a /= 7
        a.flat[0] = str(v % 1000) if dt == 'U5' else (v % 2 if dt == 'bool' else v % 100)
        if v % 4 == 1 and size % 2 == 0:
            a = a.reshape(2, -1)
        elif v % 11 == 5:
            a = a[:0]
        elif v % 13 == 6:
            a = a.reshape(())if a.size == 1 else a[::-1]
        if v % 17 == 3:
            a = np.asfortranarray(a)
        return a
    c = v % 6
    if c == 1:
        return 'text-%d-' % v + 'x' * (size % 300)
    if c == 2:
        return {'v': v, 'l': [r.random() for _ in range(size % 50)]}
    if c == 4:
        return [v, None, (v, 'tuple'), {v}]
    return [v, float(v) / 3, None, True, 10 ** 30 + v]


def same(kind, v, got):
    want = make(kind, v)
    if isinstance(want, np.ndarray):
        return same_array(want, got)
    return type(got) is type(want) and got == want


def same_array(want, got):
    if not isinstance(got, np.ndarray) or got.dtype != want.dtype or got.shape != want.shape:
        return False
    if want.dtype.kind == 'O':
        return [(type(x), x) for x in want.flat] == [(type(x), x) for x in got.flat]
    return got.tobytes() == want.tobytes()


EXT = {'arr': '.npz', 'attr': '.pkl'}


def open_store(kind, path):
    return (iou.ArrayStore if kind == 'arr' else iou.AttrStore)(path)


def new_store(kind):
    return (iou.ArrayStore if kind == 'arr' else iou.AttrStore)()


def names_of(store):
    """Names a store says it has, as a sorted list (duplicates kept)."""
    c = store.contents()
    return sorted(c)


def digest_dir(root):
    d = {}
    for n in sorted(os.listdir(root)):
        with simfs._real['open'](os.path.join(root, n), 'rb') as f:
            d[n] = f.read()
    return d


class World:
    def __init__(self, sim, bufsize):
        self.root = None
        self.sim = sim
        base = os.environ.get('DST_SCRATCH') or '/tmp'
        import tempfile
        self.top = tempfile.mkdtemp(prefix='run-', dir=base)
        self.root = os.path.join(self.top, 'disk')
        self.aside = os.path.join(self.top, 'aside')
        os.mkdir(self.root)
        os.mkdir(self.aside)
        self.fs = simfs.SimFS(self.root, sim, bufsize)

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.root, name)

    def call(self, opno, faults, fn, *args):
        """Run one operation of the code under test with faults injected.
        Returns (outcome, value): 'ok', 'error' or 'crash'."""
        fs = self.fs
        fs.begin(opno, faults)
        try:
            with simfs.active(fs):
                try:
                    r = ('ok', fn(*args))
                except simfs.SimCrash:
                    r = ('crash', None)
                except Exception as e:
                    r = ('error', e)
        finally:
            fired = fs.end()
        if fs.dead:
            r = ('crash', None)
        self.sim.shape(r[0], type(r[1]).__name__ if r[0] == 'error' else '')
        self.sim.log(opno, r[0], repr(r[1])[:200].replace(self.top, '') if r[0] == 'error' else '',
                     [f[:2] for f in fired])
        return r[0], r[1], fired

    def read_copy(self, kind, fname):
        """Load everything in file `fname` through a fresh store on a copy of
        it; returns {name: value} or raises."""
        dst = os.path.join(self.aside, 'copy')
        shutil.copyfile(os.path.join(self.root, fname), dst + EXT[kind])
        st = open_store(kind, dst)
        return {n: getattr(st, n) for n in names_of(st)}

    def match(self, kind, fname, versions):
        """Index of the version that file `fname` holds completely, or None."""
        p = os.path.join(self.root, fname)
        if not os.path.exists(p):
            return 'absent'
        try:
            got = self.read_copy(kind, fname)
        except Exception as e:
            self.sim.log('unreadable', fname, type(e).__name__)
            return 'garbage'
        for i in range(len(versions) - 1, -1, -1):
            v = versions[i]
            if set(v) == set(got) and all(same(kind, v[n], got[n]) for n in v):
                return i
        return 'other'
