"""Builders and observations shared by the contracts (both readings)."""
import warnings
warnings.filterwarnings('ignore')
import logging
logging.disable(logging.CRITICAL)
import numpy as np
import swprocess
from swprocess.activetimeseries import ActiveTimeSeries
from swprocess.sensor1c import Sensor1C
from swprocess.source import Source
from swprocess.array1d import Array1D
from sigpropy import TimeSeries


def record(c, tag, n=None, dt=None, delay=None, nstacks=None, amp=None):
    """An arbitrary active-source record; n >= 2 samples."""
    n = c.size(f'n{tag}', 2) if n is None else n
    dt = c.real(f'dt{tag}', lo=0, hi=10, open_lo=True, grid=1 / 128) if dt is None else dt
    delay = c.real(f'delay{tag}', lo=-5, hi=0, grid=1 / 16) if delay is None else delay
    nstacks = c.int(f'nstacks{tag}', 1, small=6) if nstacks is None else nstacks
    amp = c.vec(f'amp{tag}', n) if amp is None else amp
    return ActiveTimeSeries(amp, dt, nstacks=nstacks, delay=delay)


class View:
    """What can be observed of a record, frozen at one point in time."""

    def __init__(self, c, r):
        self.n, self.dt, self.delay, self.nstacks = r.nsamples, r.dt, r.delay, r.nstacks
        self.amp = np.array(r.amplitude) if not c.symbolic else r.amplitude.copy()
        self.df, self.multiple = r.df, r.multiple

    def a(self, c, i):
        return c.at(self.amp, i)


def same_record(c, v, r, samples=True, stacks=True):
    """r still shows exactly what was recorded in v"""
    cs = [c.is_(r.dt, v.dt), c.is_(r.delay, v.delay)]
    if stacks:
        cs.append(c.is_(r.nstacks, v.nstacks))
    cs.append(c.is_(r.nsamples, v.n))
    if samples:
        cs.append(lambda: c.forall(v.n, lambda i: c.is_(c.at(r.amplitude, i), v.a(c, i))))
    return c.and_(*cs)


def sensor(c, tag, x, n, dt, delay, nstacks, amp=None, y=0.0, z=0.0):
    amp = c.vec(f'amp{tag}', n) if amp is None else amp
    return Sensor1C(amp, dt, x, y, z, nstacks=nstacks, delay=delay)


class Geo:
    """An arbitrary array: m sensors at strictly increasing positions."""

    def __init__(self, c, tag='', m_lo=2, n_lo=2, side='any', delay=True, m=None, n=None, gap=0.01):
        self.m = m = c.size(f'm{tag}', m_lo) if m is None else m
        self.n = n = c.size(f'n{tag}', n_lo) if n is None else n
        self.dt = c.real(f'dt{tag}', lo=0, hi=10, open_lo=True, grid=1 / 128)
        self.delay = c.real(f'delay{tag}', lo=-5, hi=0, grid=1 / 16) if delay else 0.0
        self.nstacks = c.int(f'nstacks{tag}', 1, small=6)
        self.x = c.increasing(f'x{tag}', m)
        self.A = c.mat(f'amp{tag}', (m, n))
        lo, hi = c.at(self.x, 0), c.at(self.x, m - 1)

        def gen(rng):
            r = rng.random()
            k = {'any': rng.choice('lir'), 'left': 'l', 'right': 'r', 'outside': rng.choice('lr'), 'in': 'i'}[side]
            if k == 'l':
                return float(lo) - rng.choice([0, 0.25, 1, 5.5, rng.uniform(0, 20)])
            if k == 'r':
                return float(hi) + rng.choice([0, 0.25, 1, 5.5, rng.uniform(0, 20)])
            return rng.choice([float(rng.choice(list(self.x))), rng.uniform(float(lo), float(hi)), (float(lo) + float(hi)) / 2])
        self.sx = c.real(f'sx{tag}', gen=gen)
        if side == 'left':
            c.assume(self.sx <= lo)
        elif side == 'right':
            c.assume(self.sx >= hi)
        elif side == 'outside':
            c.assume(c.or_(self.sx <= lo, self.sx >= hi))
        self.sy = c.real(f'sy{tag}', lo=-5, hi=5)
        self.lo, self.hi = lo, hi

    def build(self, c, order=None):
        def make(i):
            return Sensor1C(self.A[i], self.dt, c.at(self.x, i), 0.0, 0.0, nstacks=self.nstacks, delay=self.delay)
        sensors = c.family(self.m, make)
        if order is not None:
            sensors = [sensors[i] for i in order]
        return Array1D(sensors, Source(self.sx, self.sy, 0.0))

    def row(self, c, i, j):
        return c.at(self.A, i, j)


def same_array(c, g, arr, samples=True, stacks=True):
    """the array still is exactly what Geo g describes"""
    cs = [c.is_(arr.nchannels, g.m), c.is_(arr.source.x, g.sx), c.is_(arr.source.y, g.sy)]

    def one(i):
        s = c.at(arr.sensors, i)
        r = [c.is_(s.x, c.at(g.x, i)), c.is_(s.dt, g.dt), c.is_(s.delay, g.delay), c.is_(s.nsamples, g.n)]
        if stacks:
            r.append(c.is_(s.nstacks, g.nstacks))
        if samples:
            r.append(lambda: c.forall(g.n, lambda j: c.is_(c.at(s.amplitude, j), g.row(c, i, j))))
        return c.and_(*r)
    return c.and_(*cs, lambda: c.forall(g.m, one))
