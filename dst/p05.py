"""P05: column data read from a faulty stream are right or an error, never silently wrong."""

import json
import io

from . import core, stores
from .core import Scenario, Violation


class Injected(Exception):
    pass


class Stream(io.RawIOBase):
    """Delivers `data` in the planned chunk sizes; may fail or end early."""

    def __init__(self, data, chunks, fail_at, eof_at, sim):
        self.data, self.chunks, self.fail_at, self.eof_at, self.sim = data, chunks, fail_at, eof_at, sim
        self.pos = 0
        self.n = 0
        self.failed = False

    def readable(self):
        return True

    def readinto(self, b):
        n = len(b)
        c = self.chunks[self.n % len(self.chunks)] if self.chunks else n
        self.n += 1
        if c < n:
            n = c
            self.sim.probe('short_read')
        end = len(self.data)
        if self.eof_at is not None and self.eof_at < end:
            end = self.eof_at
        if self.fail_at is not None and self.pos + n > self.fail_at:
            n = self.fail_at - self.pos
            if n <= 0:
                self.failed = True
                self.sim.fault('eio')
                raise OSError(5, 'Input/output error')
        got = self.data[self.pos:min(self.pos + n, end)]
        b[:len(got)] = got
        self.pos += len(got)
        if not got and self.eof_at is not None and self.eof_at < len(self.data):
            self.sim.fault('early_eof')
        return len(got)


EXC = [Injected, type('BadIndex', (IndexError,), {}), type('BadValue', (ValueError,), {}), type('Stop', (StopIteration,), {}), type('BadKey', (KeyError,), {}),
       type('Interrupt', (KeyboardInterrupt,), {})]


class P05(Scenario):
    pid = 'P05'
    quick_runs = 18000
    list_fields = ('rows', 'chunks')
    rule = ('A run reads a seeded table through a stream with planned chunk sizes, an I/O error or an early end at a byte '
            'offset, a blank or short line among complete ones, or a converter that fails at one value, then retries; non-trivial = a fault fired. Distinct = distinct '
            'hash of table shape, fault kind and position, chunking and outcome.')
    real = ['inference.utils.ioutils.read_column_vectors', 'io text and buffer layers']
    stub = ['the byte stream under the open file']
    assumptions = ['a line with too few fields holds no row: it may be skipped or refused']

    def setup(self):
        stores.setup()

    def gen(self, rng):
        nc = rng.randrange(1, 6)
        kinds = [rng.choice('fis') for _ in range(nc)]
        extra = rng.choice([0, 0, 1, 3])
        rows = []
        for _ in range(rng.choice([0, 1, 2, 5, 20, 60])):
            row = []
            for k in kinds + ['f'] * extra:
                if k == 'f':
                    row.append(repr(rng.choice([rng.uniform(-1e3, 1e3), rng.random() * 1e-12, float(rng.randrange(99))])))
                elif k == 'i':
                    row.append(str(rng.randrange(-10 ** 6, 10 ** 6)))
                else:
                    row.append(rng.choice(['ab', 'x_%d' % rng.randrange(100), '-', 'NaN?', 'q' * rng.randrange(1, 9)]))
            rows.append([row, rng.choice([' ', '\t', '   ', ' \t']), rng.choice(['', ' ', '\t'])])
        size = sum(len(x) + 2 for r in rows for x in r[0]) + 20
        fault = rng.choice(['none', 'eio', 'eof', 'conv', 'conv', 'gap'])
        chunks = [rng.choice([1, 2, 3, 7, 20, 100, 10000]) for _ in range(rng.randrange(0, 8))]
        return dict(kinds=kinds, rows=rows, header=rng.randrange(0, 3), arrays=rng.random() < 0.7, fault=fault,
                    at=rng.randrange(size + 1), conv=[rng.randrange(nc), rng.randrange(max(1, len(rows)))],
                    gap=[rng.randrange(len(rows) + 1), rng.choice(['', '', ' ', '\t']), rng.randrange(nc)], chunks=chunks, last=rng.random() < 0.8, exc=rng.randrange(6), buf=rng.choice([1, 16, 512, 8192]))

    def run(self, plan, sim):
        np = stores.np
        read = stores.iou.read_column_vectors
        kinds = plan['kinds']
        head = ''.join('# header %d\n' % i for i in range(plan['header']))
        lines = [pad + sep.join(row) for row, sep, pad in plan['rows']]
        body = '\n'.join(lines)
        if plan['last'] and lines:
            body += '\n'
        whole = (head + body).encode()
        at, blank, fields = plan.get('gap') or [0, '', 0]
        # one line that is blank or holds too few fields, among complete ones
        short = '7 ' * fields + blank
        gapped = (head + '\n'.join(lines[:at] + [short] + lines[at:]) + '\n').encode()
        conv = dict(f=float, i=int, s=str)
        want = [[conv[k](row[c]) for row, _, _ in plan['rows']] for c, k in enumerate(kinds)]
        calls = [0] * len(kinds)
        sim.op('read')
        sim.shape(len(kinds), len(lines), plan['fault'], plan['at'], plan['chunks'])

        def attempt(faulty):
            fault = plan['fault'] if faulty else 'none'
            data = gapped if fault == 'gap' else whole
            if fault == 'gap':
                sim.fault('short_line')
            at = min(plan['at'], len(data))
            raw = Stream(data, plan['chunks'], at if fault == 'eio' else None, at if fault == 'eof' else None, sim)
            text = io.TextIOWrapper(io.BufferedReader(raw, plan['buf']), encoding='utf-8', newline='\n')
            types = []
            state = dict(raised=None, after=0)
            for c, k in enumerate(kinds):
                def f(s, c=c, k=k, n=[0]):
                    if state['raised'] is not None:
                        state['after'] += 1
                    if fault == 'conv' and [c, n[0]] == plan['conv']:
                        state['raised'] = EXC[plan.get('exc', 0)]('cannot convert %r' % s)
                        sim.fault('converter_error')
                        raise state['raised']
                    n[0] += 1
                    return conv[k](s)
                types.append(f)
            try:
                for _ in range(plan['header']):
                    text.readline()
            except OSError:
                return 'header', None, raw, state
            try:
                # arrays are the default
                cols = read(text, types) if plan['arrays'] and plan['at'] % 2 else read(text, types, plan['arrays'])
            except BaseException as e:
                if not isinstance(e, Exception) and e is not state['raised']:
                    raise
                return 'error', e, raw, state
            return 'ok', cols, raw, state

        def check(cols, want, tail):
            """`tail`: the last row may be a truncated one."""
            if not isinstance(cols, (list, tuple)) or len(cols) != len(want):
                raise Violation('wrong-shape', '%r columns for %d types' % (len(cols), len(want)))
            ns = [len(c) for c in cols]
            if len(set(ns)) > 1:
                raise Violation('ragged', 'columns of lengths %r were returned' % (ns,))
            n = ns[0] if ns else 0
            if not tail and n != len(want[0]):
                raise Violation('wrong-rows', '%d rows returned, the stream has %d' % (n, len(want[0])))
            if tail and n > len(want[0]):
                raise Violation('wrong-rows', '%d rows returned, the stream has %d' % (n, len(want[0])))
            m = n - 1 if tail else n
            for c in range(len(want)):
                got = cols[c]
                if plan['arrays'] != isinstance(got, np.ndarray):
                    raise Violation('wrong-type', 'column %d is a %s' % (c, type(got).__name__))
                for r in range(max(m, 0)):
                    if got[r] != want[c][r] and not (got[r] != got[r] and want[c][r] != want[c][r]):
                        raise Violation('wrong-value', 'row %d, column %d reads %r, not %r' % (r, c, got[r], want[c][r]))
            sim.ok()
            return n

        data = whole
        out, val, raw, state = attempt(True)
        sim.log(plan['fault'], out, type(val).__name__, raw.failed)
        sim.shape(out)
        if out == 'ok':
            if raw.failed:
                raise Violation('error-swallowed', 'the stream failed with an I/O error but data were returned')
            if state['raised'] is not None:
                raise Violation('error-swallowed', 'a converter failed but data were returned')
            cut = plan['fault'] == 'eof' and plan['at'] < len(data)
            n = check(val, want, cut)
            if cut:
                full = data[:plan['at']][len(head):].count(b'\n')
                if n < full:
                    raise Violation('rows-dropped', '%d rows returned, %d complete lines were delivered' % (n, full))
        elif out == 'error':
            if state['raised'] is not None:
                if val is not state['raised'] and state['raised'] not in (val.__cause__, val.__context__):
                    raise Violation('error-changed', 'the converter raised %r, the caller got %r' % (state['raised'], val))
            elif raw.failed:
                if not isinstance(val, OSError):
                    raise Violation('error-changed', 'an I/O error was reported as %r' % (val,))
            elif plan['fault'] == 'gap':
                if not isinstance(val, (ValueError, IndexError, EOFError)):
                    raise Violation('error-changed', 'a short line was reported as %r' % (val,))
            elif plan['fault'] == 'eof' and plan['at'] < len(data):
                if not isinstance(val, (ValueError, IndexError, EOFError)):
                    raise Violation('error-changed', 'a truncated line was reported as %r' % (val,))
            else:
                raise Violation('unprovoked-error', 'reading failed although nothing went wrong: %r' % (val,))
        # a retry on a healthy stream gives the exact table
        out, val, raw, state = attempt(False)
        if out != 'ok':
            raise Violation('no-retry', 'reading a healthy stream failed: %r' % (val,))
        check(val, want, False)


SCENARIO = P05()
