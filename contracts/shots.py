"""C09 muting, C10-C12 reading and writing shot files."""
import os
import struct
import types
from unittest import mock
from pydv.harness import contract
from contracts.common import *

A = 'swprocess.array1d.Array1D.'
S = 'swprocess.sensor1c.Sensor1C.'
SCALARS = [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000]


# ---------------------------------------------------------------------------
# C09
def tukey(n, alpha):
    """the tapered cosine window, from its definition"""
    import math
    if alpha <= 0:
        return [1.0] * n
    if n == 1:
        return [1.0]
    out = []
    for i in range(n):
        # distance to the nearer end, in samples
        e = min(i, n - 1 - i)
        if alpha >= 1:
            out.append(0.5 - 0.5 * math.cos(2 * math.pi * e / (n - 1)))
        elif e < alpha * (n - 1) / 2:
            out.append(0.5 * (1 - math.cos(2 * math.pi * e / (alpha * (n - 1)))))
        else:
            out.append(1.0)
    return out


@contract('C09', [A + 'mute', A + 'position'], modes='C', trials=300)
def mute(c):
    mute_case(c, lambda arr, s, e, w: c.call(arr.mute, signal_start=s, signal_end=e, **({} if w is None else {'window_kwargs': w})))


@contract('C09', [A + 'mute', A + 'interactive_mute', A + '_ginput_session'], modes='C', trials=25)
def mute_interactive(c):
    import matplotlib.pyplot as plt

    def do(arr, s, e, w):
        picks = [p for p in (s, e) if p is not None]
        loc = 'both' if len(picks) == 2 else 'before' if s is not None else 'after'
        axis = c.choice('axis', ['y', 'x'])
        if not picks:
            raise_discard(c)

        def answer(ax, **k):
            p = picks.pop(0)
            xs, ts = tuple(q[0] for q in p), tuple(q[1] for q in p)
            return (xs, ts) if axis == 'y' else (ts, xs)
        kw = {} if w is None else {'window_kwargs': w}
        with mock.patch.object(Array1D, '_ginput_session', staticmethod(answer)):
            o = c.call(arr.interactive_mute, mute_location=loc, waterfall_kwargs={'time_ax': axis}, **kw)
        plt.close('all')
        c.check('returns the lines', (not o.ok) or o.value == (s, e))
        return o
    mute_case(c, do, m_lo=2)


def raise_discard(c):
    c.assume(False)


def mute_case(c, do, m_lo=1):
    g = Geo(c, m_lo=m_lo, n_lo=4)
    x, n, dt = g.x, g.n, g.dt
    zero = -g.delay / dt
    which = c.choice('lines', ['both', 'start', 'end', 'none'])

    def line(tag, lo, hi):
        """a line whose crossings are samples in [lo, hi] at both ends of the spread"""
        s0 = c.real(tag + '0', lo=lo, hi=hi)
        s1 = c.real(tag + '1', lo=lo, hi=hi) if c.choice(tag + ' slopes', [0, 1]) else s0
        xa = float(x[0]) - c.real(tag + ' before', lo=0, hi=4, grid=0.5)
        xb = float(x[-1]) + c.real(tag + ' after', lo=1, hi=5, grid=0.5)
        ta, tb = (s0 - zero) * dt, (s1 - zero) * dt
        p = ((xa, ta), (xb, tb))
        return p[::-1] if c.choice(tag + ' order', [0, 1]) else p
    mid = (n - 1) / 2
    s = line('s', 0, max(0.0, mid - 1)) if which in ('both', 'start') else None
    e = line('e', mid + 1, n) if which in ('both', 'end') else None
    w = c.choice('window', [None, None, {'alpha': 0.0}, {'alpha': 0.5}, {'alpha': 1.0}, {'alpha': 0.05}])
    w = None if w is None else dict(w)
    arr = g.build(c)

    def cross(p, xi):
        (x1, t1), (x2, t2) = p
        # the two-point form, from the definition of a straight line
        t = (t1 * (x2 - xi) + t2 * (xi - x1)) / (x2 - x1)
        k = t / dt + zero
        c.assume(abs(k - round(k)) > 1e-6 or k == round(k) == 0)
        return int(k)
    rng = []
    for i in range(g.m):
        a = cross(s, float(x[i])) if s is not None else 0
        b = cross(e, float(x[i])) if e is not None else n - 1
        c.assume(0 <= a < b <= n)
        rng.append((a, b))
    o = do(arr, s, e, w)
    c.check('accepted', o.ok)
    c.check('geometry, timing and stacks unchanged', same_array(c, g, arr, samples=False))
    for i, (a, b) in enumerate(rng):
        t = tukey(b - a, 0.2 if w is None else w['alpha'])
        amp = arr.sensors[i].amplitude
        c.check('zero outside', all(amp[j] == 0 for j in list(range(a)) + list(range(b, n))))
        c.check('tapered inside', all(abs(amp[a + j] - g.A[i][a + j] * t[j]) <= 1e-9 * max(1, abs(g.A[i][a + j])) for j in range(b - a)))


# ---------------------------------------------------------------------------
# C10: the headers of one trace
class Bag:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getitem__(self, k):
        return getattr(self, k)

    def get(self, k, d=None):
        return getattr(self, k, d)


KEYS = dict(ns='number_of_horizontally_stacked_traces_yielding_this_trace', sc='scalar_to_be_applied_to_all_coordinates',
            gx='group_coordinate_x', gy='group_coordinate_y', sx='source_coordinate_x', sy='source_coordinate_y',
            delay='delay_recording_time', units='coordinate_units')


def maps(c):
    """affine coordinate maps, or none"""
    if c.choice('maps', ['none', 'given']) == 'none':
        return {}, (lambda v: v), (lambda v: v)
    ax, bx = c.choice('ax', [1, -1, 2]), c.real('bx', lo=-8, hi=8, grid=0.5)
    ay, by = c.choice('ay', [1, -1, 2]), c.real('by', lo=-8, hi=8, grid=0.5)
    fx, fy = (lambda v: v * ax + bx), (lambda v: v * ay + by)
    return {'map_x': fx, 'map_y': fy}, fx, fy


def scaled(i, s):
    return i / abs(s) if s < 0 else i * max(s, 1)


@contract('C10', [S + 'from_trace', S + '_from_trace_su', S + '_from_trace_segy', S + '_safely_get_header', S + '__init__'], trials=300)
def receiver_coordinates(c):
    fmt = c.choice('format', ['SU', 'SEGY'])
    s = c.choice('scalar', SCALARS)
    n = c.size('n', 2)
    h = dict(ns=c.int('stacks', 0, None if c.symbolic else 30), sc=s, gx=c.int('gx', -2000000 if not c.symbolic else None, None if c.symbolic else 2000000),
             gy=c.int('gy', -2000000 if not c.symbolic else None, None if c.symbolic else 2000000),
             delay=c.int('delay', -30000, 0))
    dt = c.real('dt', lo=0, hi=1, open_lo=True, grid=1 / 128)
    amp = c.vec('amp', n)
    hdr = Bag(**{KEYS[k]: v for k, v in h.items()})
    tr = Bag(data=amp, stats=Bag(delta=dt, _format=fmt, **{fmt.lower(): Bag(trace_header=hdr)}))
    kw, fx, fy = maps(c)
    o = c.call(Sensor1C.from_trace, tr, **kw)
    c.check('accepted', o.ok)
    r = o.value
    c.check('x', c.eq(r.x, fx(scaled(h['gx'], s))))
    c.check('y', c.eq(r.y, fy(scaled(h['gy'], s))))
    c.check('delay', c.eq(r.delay, h['delay'] / 1000))
    c.check('stack count', c.is_(r.nstacks, c.ite(c.is_(h['ns'], 0), 1, h['ns'])))
    c.check('samples', c.and_(c.is_(r.nsamples, n), lambda: c.forall(n, lambda i: c.is_(c.at(r.amplitude, i), c.at(amp, i)))))
    c.check('sample interval', c.is_(r.dt, dt))


@contract('C10', [S + 'from_trace', S + '_from_trace_seg2'], trials=150)
def receiver_seg2(c):
    n = c.size('n', 2)
    dt = c.real('dt', lo=0, hi=1, open_lo=True, grid=1 / 128)
    amp = c.vec('amp', n)
    ns, delay, x = c.int('stacks', 1, small=9), c.real('delay', lo=-5, hi=0, grid=1 / 16), c.real('x', lo=-500, hi=500, grid=0.25)
    if c.symbolic:
        hdr = Bag(STACK=ns, DELAY=delay, RECEIVER_LOCATION=x)
    else:
        hdr = Bag(STACK=str(ns), DELAY='%.6f' % delay, RECEIVER_LOCATION='%.3f' % x)
    tr = Bag(data=amp, stats=Bag(delta=dt, _format='SEG2', seg2=hdr))
    kw, fx, fy = maps(c)
    o = c.call(Sensor1C.from_trace, tr, **kw)
    c.check('accepted', o.ok)
    r = o.value
    c.check('position', c.and_(c.eq(r.x, fx(x)), c.eq(r.y, fy(0))))
    c.check('delay and stacks', c.and_(c.eq(r.delay, delay), c.is_(r.nstacks, ns), c.is_(r.dt, dt)))
    c.check('samples', c.and_(c.is_(r.nsamples, n), lambda: c.forall(n, lambda i: c.is_(c.at(r.amplitude, i), c.at(amp, i)))))


# ---------------------------------------------------------------------------
# files (concrete reading)
def write_binary(fname, fmt, dt_us, traces):
    """traces: dicts with gx gy sx sy sc delay ns units amp"""
    import obspy
    from obspy.core import AttribDict
    from obspy.io.segy.segy import SEGYTraceHeader, SEGYBinaryFileHeader
    st = obspy.Stream()
    for t in traces:
        tr = obspy.Trace(np.array(t['amp'], dtype=np.float32))
        tr.stats.delta = dt_us / 1e6
        tr.stats.starttime = obspy.UTCDateTime(2020, 12, 18, 10, 0, 0)
        hdr = SEGYTraceHeader()
        for k, v in KEYS.items():
            setattr(hdr, v, int(t[k]))
        tr.stats[fmt.lower()] = {}
        tr.stats[fmt.lower()].trace_header = hdr
        st.append(tr)
    if fmt == 'SEGY':
        st.stats = AttribDict()
        st.stats.binary_file_header = SEGYBinaryFileHeader()
        st.stats.textual_file_header = b'C 1 '.ljust(3200)
        st.write(filename=fname, format='SEGY', data_encoding=5)
    else:
        st.write(filename=fname, format='SU')


def write_seg2(fname, dt, traces):
    """traces: dicts with x sx delay ns amp (SEG-2 strings)"""
    def strings(items):
        b = b''
        for k, v in items:
            s = f'{k} {v}'.encode() + b'\x00'
            b += struct.pack('<H', len(s) + 2) + s
        b += struct.pack('<H', 0)
        return b + b'\x00' * (-len(b) % 4)
    blocks = []
    for t in traces:
        items = [('SAMPLE_INTERVAL', '%.8f' % dt), ('RECEIVER_LOCATION', '%.3f' % t['x']), ('SOURCE_LOCATION', '%.3f' % t['sx'])]
        if t.get('delay') is not None:
            items.append(('DELAY', '%.6f' % t['delay']))
        if t.get('ns') is not None:
            items.append(('STACK', '%d' % t['ns']))
        free = strings(items)
        data = np.array(t['amp'], dtype='<f4').tobytes()
        d = struct.pack('<HHLLB', 0x4422, 32 + len(free), len(data), len(t['amp']), 4).ljust(32, b'\x00')
        blocks.append(d + free + data)
    free = strings([('ACQUISITION_DATE', '18/12/2020'), ('ACQUISITION_TIME', '10:00:00')])
    head = struct.pack('<HHHH', 0x3a55, 1, 4 * len(blocks), len(blocks)) + struct.pack('<BccBcc', 1, b'\x00', b'\x00', 1, b'\n', b'\x00')
    head = head.ljust(32, b'\x00')
    p = 32 + 4 * len(blocks) + len(free)
    ptr = []
    for b in blocks:
        ptr.append(p)
        p += len(b)
    open(fname, 'wb').write(head + struct.pack(f'<{len(ptr)}L', *ptr) + free + b''.join(blocks))


class Shot:
    """Headers and samples of one shot in one of the formats."""

    def __init__(self, c, fmts=('SU', 'SEGY', 'SEG2'), m_lo=1):
        self.fmt = c.choice('format', list(fmts))
        self.m, self.n = c.size('m', m_lo, 5), c.size('n', 12, 20)
        self.s = c.choice('scalar', SCALARS)
        self.dt_us = c.choice('dt_us', [500, 1000, 2000, 125, 4000])
        self.delay = c.int('delay', -3000, 0)
        self.kw, self.fx, self.fy = maps(c)
        pos = [int(round(v * 4)) for v in c.increasing('pos', self.m)]
        self.gx, self.gy = pos, [c.int(f'gy{i}', -50, 50) for i in range(self.m)]
        self.sx, self.sy = c.int('sx', -900, 900), c.int('sy', -90, 90)
        self.order = c.order('order', self.m)
        self.units = c.choice('units', [1, 0])

    def x(self, i):
        return self.fx(self.gx[i] / 8 if self.fmt == 'SEG2' else scaled(self.gx[i], self.s))

    def y(self, i):
        return self.fy(0 if self.fmt == 'SEG2' else scaled(self.gy[i], self.s))

    def source(self):
        if self.fmt == 'SEG2':
            return self.fx(self.sx / 8), 0.0
        return self.fx(scaled(self.sx, self.s)), self.fy(scaled(self.sy, self.s))

    def write(self, fname, amp, ns, order=None, **change):
        k = dict(sx=self.sx, sy=self.sy, dt_us=self.dt_us, delay=self.delay, units=self.units, gx=self.gx)
        k.update(change)
        order = self.order if order is None else order
        if self.fmt == 'SEG2':
            write_seg2(fname, k['dt_us'] / 1e6, [dict(x=k['gx'][i] / 8, sx=k['sx'] / 8, delay=k['delay'] / 1000, ns=max(1, ns), amp=amp[i]) for i in order])
        else:
            write_binary(fname, self.fmt, k['dt_us'], [dict(gx=k['gx'][i], gy=self.gy[i], sx=k['sx'], sy=k['sy'], sc=self.s, delay=k['delay'], ns=ns,
                                                           units=k['units'], amp=amp[i]) for i in order])

    def ascending(self):
        return sorted(range(self.m), key=self.x)


def f32(a):
    return np.array(a, dtype=np.float32)


@contract('C10', [A + 'from_files', S + 'from_trace', S + '_from_trace_su', S + '_from_trace_segy', S + '_from_trace_seg2'], modes='C', trials=120)
def one_file(c):
    h = Shot(c)
    ns = c.int('stacks', 0, 9)
    amp = f32(c.mat('amp', (h.m, h.n)))
    h.write('shot', amp, ns)
    how = c.choice('as', ['str', 'list', 'path'])
    import pathlib
    o = c.call(Array1D.from_files, {'str': 'shot', 'list': ['shot'], 'path': pathlib.Path('shot')}[how], **h.kw)
    c.check('accepted', o.ok)
    arr = o.value
    c.check('sensors', arr.nchannels == h.m)
    sx, sy = h.source()
    c.check('source x', c.eq(arr.source.x, sx))
    if h.fmt != 'SEG2':
        c.check('source y', c.eq(arr.source.y, sy))
    for k, i in enumerate(h.ascending()):
        q = arr.sensors[k]
        c.check('position', c.and_(c.eq(q.x, h.x(i)), c.eq(q.y, h.y(i))))
        c.check('delay', c.eq(q.delay, h.delay / 1000))
        c.check('stack count', q.nstacks == max(1, ns))
        c.check('sample interval', c.eq(q.dt, h.dt_us / 1e6))
        c.check('samples', q.nsamples == h.n and all(q.amplitude[j] == amp[i][j] for j in range(h.n)))


@contract('C10', [A + 'from_files'], modes='C', trials=30)
def units_rejected(c):
    h = Shot(c, fmts=('SU', 'SEGY'))
    h.units = c.choice('bad units', [2, 3, 4])
    h.write('shot', f32(c.mat('amp', (h.m, h.n))), 1)
    c.check('rejected', not c.call(Array1D.from_files, 'shot', **h.kw).ok)


# ---------------------------------------------------------------------------
# C11
@contract('C11', [A + 'from_files', 'swprocess.activetimeseries.ActiveTimeSeries.stack_append'], modes='C', trials=120)
def several_files(c):
    h = Shot(c)
    K = c.int('files', 2, 4)
    amp = [f32(c.mat(f'amp{k}', (h.m, h.n))) for k in range(K)]
    ns = [c.int(f'stacks{k}', 0, 5) for k in range(K)]
    names = []
    for k in range(K):
        h.write(f'shot{k}', amp[k], ns[k], order=c.order(f'order{k}', h.m))
        names.append(f'shot{k}')
    o = c.call(Array1D.from_files, names, **h.kw)
    c.check('accepted', o.ok)
    arr = o.value
    w = [max(1, v) for v in ns]
    c.check('sensors', arr.nchannels == h.m)
    c.check('source', c.eq(arr.source.x, h.source()[0]))
    for k, i in enumerate(h.ascending()):
        q = arr.sensors[k]
        c.check('position', c.and_(c.eq(q.x, h.x(i)), c.eq(q.y, h.y(i))))
        c.check('stack count', q.nstacks == sum(w))
        mean = sum(w[f] * amp[f][i].astype(float) for f in range(K)) / sum(w)
        mag = max(1, float(np.max(np.abs(np.array(amp)))))
        c.check('weighted mean', q.nsamples == h.n and bool(np.all(np.abs(q.amplitude - mean) <= 1e-9 * mag)))


@contract('C11', [A + 'from_files'], modes='C', trials=120)
def odd_file_rejected(c):
    h = Shot(c, m_lo=2)
    K = c.int('files', 2, 3)
    bad = c.int('odd file', 1, K - 1)
    what = c.choice('differs', ['source', 'source y', 'position', 'dt', 'length', 'fewer', 'more', 'delay'])
    c.assume(not (what == 'source y' and h.fmt == 'SEG2'))
    for k in range(K):
        amp = f32(c.mat(f'amp{k}', (h.m + 1, h.n)))
        ch, order = {}, c.order(f'order{k}', h.m)
        if k == bad:
            if what == 'source':
                ch['sx'] = h.sx + c.choice('by', [-8, 1, 40])
            elif what == 'source y':
                ch['sy'] = h.sy + c.choice('by', [-8, 1, 40])
            elif what == 'position':
                j = c.int('moved', 0, h.m - 1)
                gx = list(h.gx)
                gx[j] = max(h.gx) + 3 if c.choice('far', [0, 1]) else gx[j] + (gx[1] - gx[0]) // 2 or gx[j] + 1
                c.assume(len(set(gx)) == h.m and gx != h.gx)
                ch['gx'] = gx
            elif what == 'dt':
                ch['dt_us'] = h.dt_us * 2
            elif what == 'delay':
                ch['delay'] = h.delay - c.choice('later', [1, 50])
            elif what == 'length':
                amp = amp[:, :-2]
            elif what == 'fewer':
                order = order[:-1] if c.choice('first', [0, 1]) else [i for i in range(h.m)][:-1]
            elif what == 'more':
                ch['gx'] = h.gx + [max(h.gx) + 5]
                h.gy.append(0)
                order = list(range(h.m)) + [h.m]
        h.write(f'shot{k}', amp, 1, order=order, **ch)
    o = c.call(Array1D.from_files, [f'shot{k}' for k in range(K)], **h.kw)
    c.check('rejected', not o.ok)


@contract('C11', [A + 'from_files'], modes='C', trials=30)
def read_options(c):
    """options given for reading reach every file (head-only reading has no samples; a format hint is honoured)"""
    import obspy
    h = Shot(c)
    K = c.int('files', 2, 3)
    amp = [f32(c.mat(f'amp{k}', (h.m, h.n))) for k in range(K)]
    for k in range(K):
        h.write(f'shot{k}', amp[k], 1)
    real, seen = obspy.read, []

    def read(name, *a, **k):
        seen.append((str(name), dict(k)))
        return real(name, *a, **k)
    opts = {'format': h.fmt}
    with mock.patch('obspy.read', read):
        o = c.call(Array1D.from_files, [f'shot{k}' for k in range(K)], obspy_read_kwargs=opts, **h.kw)
    c.check('accepted', o.ok)
    if seen:
        c.check('every file once, with the options', sorted(s[0] for s in seen) == [f'shot{k}' for k in range(K)] and
                all(s[1].get('format') == h.fmt for s in seen))
    c.check('options unchanged', opts == {'format': h.fmt})


# ---------------------------------------------------------------------------
# C12
@contract('C12', [A + 'to_file', A + 'from_files', S + '_from_trace_su'], modes='C', trials=120)
def su_round_trip(c):
    m, n = c.size('m', 1, 6), c.size('n', 12, 30)
    x = [int(round(v * 1000)) for v in c.increasing('x', m, grid=0.001)]
    y = [c.int(f'y{i}', -99999, 99999) for i in range(m)]
    dt_us = c.choice('dt_us', [500, 1000, 2000, 125, 4000, 250])
    delay, ns = c.int('delay', -5000, 0), c.int('stacks', 1, 40)
    A_ = c.mat('amp', (m, n))
    sx, sy = c.int('sx', -99999, 99999), c.int('sy', -99999, 99999)
    arr = Array1D([Sensor1C(A_[i], dt_us / 1e6, x[i] / 1000, y[i] / 1000, 0, nstacks=ns, delay=delay / 1000) for i in range(m)],
                  Source(sx / 1000, sy / 1000, 0))
    o = c.call(arr.to_file, 'out.su', **({'ftype': 'su'} if c.choice('type given', [0, 1]) else {}))
    c.check('written', o.ok)
    o = c.call(Array1D.from_files, 'out.su')
    c.check('read', o.ok)
    b = o.value
    c.check('sensors', b.nchannels == m)
    c.check('source', c.and_(b.source.x == sx / 1000, b.source.y == sy / 1000))
    for i in range(m):
        q = b.sensors[i]
        c.check('position', c.and_(q.x == x[i] / 1000, q.y == y[i] / 1000))
        c.check('delay', c.eq(q.delay, delay / 1000))
        c.check('stack count', q.nstacks == ns)
        c.check('sample interval', c.eq(q.dt, dt_us / 1e6))
        c.check('samples', q.nsamples == n and all(q.amplitude[j] == np.float32(A_[i][j]) for j in range(n)))
    c.check('original unchanged', all(bool(np.all(arr.sensors[i].amplitude == A_[i])) for i in range(m)))
    c.check('other types rejected', not c.call(arr.to_file, 'out.seg2', ftype=c.choice('bad type', ['segy', 'mseed', 'SU2'])).ok)
