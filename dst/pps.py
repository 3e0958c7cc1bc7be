"""The sampler of inference.mc without its Python 2 binding: the C sources of /repo/package/inference/mc (5-table sampler,
Sampford's scheme, Mersenne twister) are compiled as they are and bound here in the way _ppssampler.c does it."""

import ctypes
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import types

MC = '/repo/package/inference/mc'
SHIM = r'''
#include <string.h>
#include "sampford.h"
static rk_state st;
void shim_set(unsigned long *key, int pos) { memcpy(st.key, key, sizeof st.key); st.pos = pos; }
int shim_get(unsigned long *key) { memcpy(key, st.key, sizeof st.key); return st.pos; }
void *shim_sampler(double *w, long n) { return init_sampler5tbl(w, n); }
void shim_sample(void *s, unsigned long *out, long n) { Dran_array((Sampler *) s, out, n, &st); }
void *shim_sampford(int n, double *c, int *i) { return init_sampford(n, c, i); }
void shim_ratios(void *f, int n, double *r, double *c) { set_sample((Sampford *) f, n, r, c); }
int shim_nsamp(void *f) { return ((Sampford *) f)->nsamp; }
int shim_nr(void *f, int *out) { return sampford_pps((Sampford *) f, out, &st); }
void *shim_tables(void *f) { return init_sampler5tbl(((Sampford *) f)->ratios, ((Sampford *) f)->npopn); }
int shim_nr5(void *f, void *w, void *r, int *out) { return sampford_pps_tables((Sampford *) f, (Sampler *) w, (Sampler *) r, out, &st); }
'''
lib = None
np = None
PAD = 8


def load():
    global lib, np
    import numpy
    np = numpy
    d = tempfile.mkdtemp(prefix='pps')
    try:
        with open(d + '/shim.c', 'w') as f:
            f.write(SHIM)
        src = [f for f in sorted(glob.glob(MC + '/*.c')) if 'Python.h' not in open(f, errors='replace').read()]
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + MC, '-o', d + '/pps.so', d + '/shim.c'] + src + ['-lm'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError('the sampler does not compile: ' + r.stdout.decode(errors='replace')[-500:])
        lib = ctypes.CDLL(d + '/pps.so')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for name in ('shim_sampler', 'shim_sampford', 'shim_tables'):
        getattr(lib, name).restype = ctypes.c_void_p
    m = types.ModuleType('_ppssampler')
    for f in (_ppssampler, equalprob, set_rng_state, get_rng_state):
        setattr(m, f.__name__, f)
    m.__version__ = '0.1-alpha'
    sys.modules['_ppssampler'] = m
    sys.modules['inference.mc._ppssampler'] = m


class Fault:
    """What fails: the n-th call into the sampler, before it does anything or (an interrupt) after it has."""
    left = exc = fired = None
    after = False
    picks = 0
    weights = None      # of the sampler made last

    @classmethod
    def arm(cls, n, exc, after):
        cls.left, cls.exc, cls.after, cls.fired = n, exc, after, None

    @classmethod
    def clear(cls):
        cls.left = cls.fired = None


def _guard(func):
    def call(*a):
        after = False
        if Fault.left is not None:
            Fault.left -= 1
            if Fault.left < 0:
                Fault.left = None
                if not Fault.after:
                    Fault.fired = Fault.exc
                    raise Fault.exc
                after = True
        r = func(*a)
        if after:
            Fault.fired = Fault.exc
            raise Fault.exc
        return r
    call.__name__ = func.__name__
    return call


def ptr(a, t):
    return a.ctypes.data_as(ctypes.POINTER(t))


def out(n, dtype, t, call):
    """Results are written by C into an array with guard elements."""
    a = np.full(max(n, 0) + PAD, -7, dtype)
    r = call(ptr(a, t))
    if (a[max(n, 0):] != -7).any():
        raise AssertionError('the sampler wrote beyond its result')
    return r, a[:n].copy()


@_guard
def set_rng_state(*args):
    if len(args) != 3:
        raise TypeError('function takes exactly 3 arguments (%d given)' % len(args))
    name, key, pos = args
    if name != 'MT19937':
        raise ValueError('Only supports RNG id MT19937!')
    key = np.ascontiguousarray(np.asarray(key), dtype=np.uint64)
    if key.shape != (624,):
        raise ValueError('Input key length incorrect!')
    lib.shim_set(ptr(key, ctypes.c_ulong), ctypes.c_int(pos))


@_guard
def get_rng_state():
    key = np.zeros(624, np.uint64)
    pos = lib.shim_get(ptr(key, ctypes.c_ulong))
    return 'MT19937', key, int(pos)


@_guard
def equalprob(nsamp, pool):
    """The original draws with the C library's rand(); here the choice is planned."""
    pool = [int(i) for i in pool]
    if nsamp <= 0:
        raise ValueError('Requested sample size must be > 0!')
    if nsamp > len(pool):
        raise ValueError('Requested sample larger than population!')
    r = []
    for i in range(nsamp):
        Fault.picks += 1
        r.append(pool.pop((Fault.picks * 7919) % len(pool)))
    return np.array(r, np.int32)


class _ppssampler:
    @_guard
    def __init__(self, weights):
        if not isinstance(weights, np.ndarray):
            raise TypeError('must be numpy.ndarray')
        if weights.ndim != 1:
            raise ValueError('the weight table must be a one-dimensional array')
        if weights.dtype != np.float64:
            raise ValueError('the pmf table must be of type float64')
        w = np.ascontiguousarray(weights)
        Fault.weights = w.copy()
        self.w = ctypes.c_void_p(lib.shim_sampler(ptr(w, ctypes.c_double), ctypes.c_long(len(w))))
        self.f = self.r = None

    @_guard
    def sample(self, size):
        if size <= 0:
            raise ValueError('sample size must be positive')
        return out(size, np.int64, ctypes.c_ulong, lambda p: lib.shim_sample(self.w, p, ctypes.c_long(size)))[1]

    @_guard
    def prepwts(self, weights):
        w = np.array(weights, float)
        idx = np.argsort(w, kind='quicksort')[::-1].astype(np.int32).copy()
        s = w[idx]
        c = np.cumsum(s)
        self.f = ctypes.c_void_p(lib.shim_sampford(ctypes.c_int(len(w)), ptr(c, ctypes.c_double), ptr(idx, ctypes.c_int)))
        self.n = len(w)
        return idx, s, float(c[-1])

    @_guard
    def prepratios(self, nsamp, wts, tot):
        w = np.array(wts, float)
        if nsamp >= len(w):
            raise ValueError('Requested sample size >= population!')
        r = (w / tot) / (1 - nsamp * (w / tot))
        c = np.cumsum(r)
        lib.shim_ratios(self.f, ctypes.c_int(nsamp), ptr(r, ctypes.c_double), ptr(c, ctypes.c_double))
        return c

    @_guard
    def samplenr(self):
        return out(lib.shim_nsamp(self.f), np.int32, ctypes.c_int, lambda p: int(lib.shim_nr(self.f, p)))

    @_guard
    def prepratiotables(self):
        self.r = ctypes.c_void_p(lib.shim_tables(self.f))

    @_guard
    def samplenr5(self):
        return out(lib.shim_nsamp(self.f), np.int32, ctypes.c_int, lambda p: int(lib.shim_nr5(self.f, self.w, self.r, p)))


# ---------------------------------------------------------------------------- reference

def untemper(y):
    """The word of the Mersenne twister's state that is output as y."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


class Tables:
    """Marsaglia's five tables: thirty-bit probabilities in base 64, looked up by a thirty-bit number."""

    def __init__(self, w):
        tot = 0.
        for x in w:
            tot += float(x)
        p = [int(float(x) / tot * (1 << 30)) for x in w]
        self.one = None
        if all(v % (1 << 30) == 0 for v in p):
            self.one = [i for i, v in enumerate(p) if v][0]
        self.t = []
        start = 0
        for k in range(1, 6):
            sh = 30 - 6 * k
            tab = [i for i, v in enumerate(p) for _ in range((v >> sh) & 63)]
            self.t.append((start, sh, tab))
            start += len(tab) << sh

    def draw(self, rs):
        if self.one is not None:
            return self.one
        while True:
            j = int(rs.randint(0, 1 << 32, dtype=np.uint32)) >> 2
            for start, sh, tab in reversed(self.t):
                if j >= start:
                    k = (j - start) >> sh
                    if k < len(tab):
                        return tab[k]
                    break


def sampford(weights, nsamp, rs, tables):
    """Indices picked by Sampford's scheme: the first by weight, the others by ratio, all again after a duplicate."""
    w = np.array(weights, float)
    idx = np.argsort(w, kind='quicksort')[::-1]
    s = w[idx]
    cw = np.cumsum(s)
    tot = float(cw[-1])
    r = (s / tot) / (1 - nsamp * (s / tot))
    cr = np.cumsum(r)
    tw, tr = (Tables(w), Tables(r)) if tables else (None, None)
    while True:
        got = []
        if tables:
            got.append(tw.draw(rs))
        else:
            got.append(int(idx[int(np.searchsorted(cw, cw[-1] * rs.random_sample(), side='left'))]))
        for _ in range(nsamp - 1):
            i = int(idx[tr.draw(rs)]) if tables else int(idx[int(np.searchsorted(cr, cr[-1] * rs.random_sample(), side='left'))])
            if i in got:
                break
            got.append(i)
        else:
            return got
