"""C01-C04, C13 (records): ActiveTimeSeries."""
from pydv.harness import contract
from contracts.common import *

A = 'swprocess.activetimeseries.ActiveTimeSeries.'
T = 'sigpropy.timeseries.TimeSeries.'


@contract('C01', [A + 'stack_append', A + '_is_similar', A + '__init__', A + '_check_input', T + '__init__'])
def stack_mean(c):
    n, dt = c.size('n', 2), c.real('dt', lo=0, hi=10, open_lo=True, grid=1 / 128)
    delay = c.real('delay', lo=-5, hi=0, grid=1 / 16)
    a, b = record(c, 'A', n, dt, delay), record(c, 'B', n, dt, delay)
    va, vb = View(c, a), View(c, b)
    o = c.call(a.stack_append, b)
    c.check('accepted', o.ok)
    nA, nB = va.nstacks, vb.nstacks
    c.check('nsamples', c.is_(a.nsamples, n))
    c.check('mean', c.forall(n, lambda i: c.eq(c.at(a.amplitude, i) * (nA + nB), nA * va.a(c, i) + nB * vb.a(c, i),
                                               scale=abs(nA * va.a(c, i)) + abs(nB * vb.a(c, i)))))
    c.check('stack count', c.is_(a.nstacks, nA + nB))
    c.check('timing', c.and_(c.is_(a.dt, dt), c.is_(a.delay, delay)))
    c.check('B unchanged', same_record(c, vb, b))


@contract('C01', [A + 'stack_append', A + '_is_similar'])
def stack_rejects(c):
    kind = c.choice('differs', ['dt', 'delay', 'nsamples', 'type'])
    n, dt = c.size('n', 2), c.real('dt', lo=0, hi=10, open_lo=True, grid=1 / 128)
    delay = c.real('delay', lo=-5, hi=0, grid=1 / 16)
    a = record(c, 'A', n, dt, delay)
    dt2, delay2, n2 = dt, delay, n
    if kind == 'dt':
        dt2 = c.real('dt2', lo=0, hi=10, open_lo=True, grid=1 / 128)
        c.assume(dt2 != dt)
    elif kind == 'delay':
        delay2 = c.real('delay2', lo=-5, hi=0, grid=1 / 16)
        c.assume(delay2 != delay)
    elif kind == 'nsamples':
        n2 = c.size('n2', 2)
        c.assume(n2 != n)
    if kind == 'type':
        b = c.choice('other', [0, 1, 2])
        b = TimeSeries(c.vec('ampB', n), dt) if b == 0 else (c.vec('ampB', n) if b == 1 else 'record')
    else:
        b = record(c, 'B', n2, dt2, delay2)
        vb = View(c, b)
    va = View(c, a)
    o = c.call(a.stack_append, b)
    c.check('rejected', not o.ok)
    c.check('A unchanged', same_record(c, va, a))
    if kind != 'type':
        c.check('B unchanged', same_record(c, vb, b))


# ---------------------------------------------------------------------------
# C02
@contract('C02', [A + 'zero_pad', A + 'df', A + '_df'])
def pad_keeps_samples(c):
    r = record(c, 'A')
    v = View(c, r)
    df = c.real('df', lo=0, open_lo=True, gen=lambda rng: 1 / (r.dt * rng.choice([rng.uniform(0.6, 40), rng.randint(1, 40)])))
    o = c.call(r.zero_pad, df)
    c.assume(o.ok)
    n2 = r.nsamples
    c.check('not shorter', n2 >= v.n)
    c.check('samples kept', c.forall(v.n, lambda i: c.is_(c.at(r.amplitude, i), v.a(c, i))))
    c.check('zeros appended', c.forall(n2 - v.n, lambda i: c.is_(c.at(r.amplitude, v.n + i), 0.0)))
    c.check('same times', c.forall(v.n, lambda i: c.eq(c.at(r.time, i), i * v.dt + v.delay)))
    c.check('timing and stacks', c.and_(c.is_(r.dt, v.dt), c.is_(r.delay, v.delay), c.is_(r.nstacks, v.nstacks)))


@contract('C02', [A + 'zero_pad', A + 'df', A + '_df', A + 'multiple'], trials=250, budget=120)
def pad_exact_step(c):
    exact_step(c, record(c, 'A'))


@contract('C02', [A + 'zero_pad', A + 'df', A + '_df', A + 'multiple'], trials=250, budget=240)
def repad_exact_step(c):
    r = record(c, 'A')
    o = c.call(r.zero_pad, 1.0 / (c.int('N0', 1, 40) * r.dt))
    c.check('accepted', o.ok)
    exact_step(c, r)


def exact_step(c, r):
    N = c.int('N', 1, 400, small=30)
    v = View(c, r)
    df = 1.0 / (N * r.dt)
    o = c.call(r.zero_pad, df)
    c.check('accepted', o.ok)
    c.check('step is df', c.eq(r.df, df))
    c.check('whole multiple', c.is_(r.nsamples % N, 0))
    c.check('no more zeros than needed', c.and_(r.nsamples >= v.n, r.nsamples - v.n < N))
    c.check('bins of the step', c.eq(r.df * r.nsamples * r.dt, 1.0 * r.multiple))
    c.check('at least one multiple', c.and_(r.multiple >= 1, c.is_(r.multiple * N, r.nsamples)))
    c.check('samples kept', c.forall(v.n, lambda i: c.is_(c.at(r.amplitude, i), v.a(c, i))))


@contract('C02', [A + 'zero_pad'])
def pad_rejects(c):
    r = record(c, 'A')
    if c.choice('padded before', [0, 1]):
        c.assume(c.call(r.zero_pad, 1.0 / (c.int('N0', 1, 40) * r.dt)).ok)
    v = View(c, r)
    df = c.real('df', lo=-50, hi=0)
    o = c.call(r.zero_pad, df)
    c.check('rejected', not o.ok)
    c.check('unchanged', same_record(c, v, r))
    c.check('step unchanged', c.and_(c.is_(r.df, v.df), c.is_(r.multiple, v.multiple)))


# ---------------------------------------------------------------------------
# C03
@contract('C03', [A + 'trim', A + 'time', T + 'trim', T + 'time'], trials=300)
def trim_window(c):
    r = record(c, 'A')
    v = View(c, r)
    end = (v.n - 1) * v.dt + v.delay
    def gen(rng):
        if rng.random() < 0.5:
            return float(rng.choice(list(r.time)))
        return rng.uniform(float(r.time[0]), float(r.time[-1]))
    t0, t1 = c.real('t0', gen=gen), c.real('t1', gen=gen)
    c.assume(t0 >= v.delay)
    c.assume(t1 <= end if c.symbolic else t1 <= float(r.time[-1]))
    c.assume(t0 < t1)
    i0 = c.argmin(v.n, lambda i: abs(i * v.dt + v.delay - t0))
    i1 = c.argmin(v.n, lambda i: abs(i * v.dt + v.delay - t1))
    o = c.call(r.trim, t0, t1)
    c.check('accepted', o.ok)
    c.check('length', c.is_(r.nsamples, i1 - i0 + 1))
    c.assume(r.nsamples >= 2)      # a single sample is not an array (squeezed)
    c.check('samples', c.forall(i1 - i0 + 1, lambda i: c.is_(c.at(r.amplitude, i), v.a(c, i0 + i))))
    c.check('starts at t0', c.and_(c.eq(r.delay, t0), c.eq(c.at(r.time, 0), t0)))
    c.check('step and stacks', c.and_(c.is_(r.dt, v.dt), c.is_(r.nstacks, v.nstacks)))


@contract('C03', [A + 'trim', A + 'time', T + 'trim'], trials=250)
def trim_rejects(c):
    r = record(c, 'A')
    v = View(c, r)
    end = (v.n - 1) * v.dt + v.delay
    t0, t1 = c.real('t0', lo=-6, hi=30), c.real('t1', lo=-6, hi=30)
    k = c.choice('why', ['early', 'late', 'empty'])
    if k == 'early':
        c.assume(t0 < v.delay)
    elif k == 'late':
        c.assume(t1 > end + (0 if c.symbolic else 1e-9))
    else:
        c.assume(t0 >= t1)
    o = c.call(r.trim, t0, t1)
    c.check('rejected', not o.ok)
    c.check('unchanged', same_record(c, v, r))


# ---------------------------------------------------------------------------
# C04
def lagsum(c, a, b, n, lag):
    """full cross-correlation at a lag: sum of a[i] b[i-lag]"""
    if not c.symbolic:
        return sum(float(a[i]) * float(b[i - lag]) for i in range(n) if 0 <= i - lag < n)
    return c.sum(n, lambda i: c.ite(c.and_(i - lag >= 0, i - lag < n), a.at(i) * b.at(i - lag), 0.0))


@contract('C04', [A + 'crosscorr', A + 'crosscorr_shift', A + '_is_similar'], trials=200)
def best_lag(c):
    n, dt = c.size('n', 2), c.real('dt', lo=0, hi=10, open_lo=True, grid=1 / 128)
    delay = c.real('delay', lo=-5, hi=0, grid=1 / 16)
    a, b = record(c, 'A', n, dt, delay), record(c, 'B', n, dt, delay)
    va, vb = View(c, a), View(c, b)
    o = c.call(ActiveTimeSeries.crosscorr_shift, a, b, ['nstacks'])
    c.check('accepted', o.ok)
    lag, out = o.value
    c.check('lag in range', c.and_(lag > -n, lag < n))
    k = c.int('k', 0, None if c.symbolic else 2 * n - 2)
    c.assume(k < 2 * n - 1)
    other = k - (n - 1)
    tol = 0 if c.symbolic else 1e-9 * max(1.0, float(abs(va.amp).max()) * float(abs(vb.amp).max()) * n)
    c.check('best lag', lagsum(c, va.amp, vb.amp, n, other) <= lagsum(c, va.amp, vb.amp, n, lag) + tol)
    c.check('length', c.is_(c.len(out), n))
    c.check('shifted', c.forall(n, lambda i: c.is_(c.at(out, i), c.ite(c.and_(i - lag >= 0, i - lag < n), vb.a(c, i - lag), 0.0)
                                                   if c.symbolic else (vb.a(c, i - lag) if 0 <= i - lag < n else 0.0))))
    c.check('A unchanged', same_record(c, va, a))
    c.check('B unchanged', same_record(c, vb, b))


@contract('C04', [A + 'from_cross_stack', A + 'crosscorr_shift', A + 'stack_append', A + 'from_activetimeseries'], trials=150)
def cross_stack(c):
    n, dt = c.size('n', 2), c.real('dt', lo=0, hi=10, open_lo=True, grid=1 / 128)
    delay = c.real('delay', lo=-5, hi=0, grid=1 / 16)
    a, b = record(c, 'A', n, dt, delay), record(c, 'B', n, dt, delay)
    va, vb = View(c, a), View(c, b)
    o = c.call(ActiveTimeSeries.crosscorr_shift, a, b, ['nstacks'])
    c.assume(o.ok)
    lag, out = o.value
    o = c.call(ActiveTimeSeries.from_cross_stack, a, b)
    c.check('accepted', o.ok)
    s, nA, nB = o.value, va.nstacks, vb.nstacks
    c.check('weighted mean', c.forall(n, lambda i: c.eq(c.at(s.amplitude, i) * (nA + nB), nA * va.a(c, i) + nB * c.at(out, i),
                                                        scale=abs(nA * va.a(c, i)) + abs(nB * c.at(out, i)))))
    c.check('stack count', c.is_(s.nstacks, nA + nB))
    c.check('timing', c.and_(c.is_(s.dt, dt), c.is_(s.delay, delay), c.is_(s.nsamples, n)))
    c.check('A unchanged', same_record(c, va, a))
    c.check('B unchanged', same_record(c, vb, b))


@contract('C04', [A + 'from_cross_stack', A + 'crosscorr_shift', A + '_is_similar'])
def cross_rejects(c):
    kind = c.choice('differs', ['dt', 'delay', 'nsamples'])
    n, dt = c.size('n', 2), c.real('dt', lo=0, hi=10, open_lo=True, grid=1 / 128)
    delay = c.real('delay', lo=-5, hi=0, grid=1 / 16)
    a = record(c, 'A', n, dt, delay)
    dt2, delay2, n2 = dt, delay, n
    if kind == 'dt':
        dt2 = c.real('dt2', lo=0, hi=10, open_lo=True, grid=1 / 128)
        c.assume(dt2 != dt)
    elif kind == 'delay':
        delay2 = c.real('delay2', lo=-5, hi=0, grid=1 / 16)
        c.assume(delay2 != delay)
    else:
        n2 = c.size('n2', 2)
        c.assume(n2 != n)
    b = record(c, 'B', n2, dt2, delay2)
    va, vb = View(c, a), View(c, b)
    which = c.choice('call', ['shift', 'stack'])
    if which == 'shift':
        o = c.call(ActiveTimeSeries.crosscorr_shift, a, b, ['nstacks'])
    else:
        o = c.call(ActiveTimeSeries.from_cross_stack, a, b)
    c.check('rejected', not o.ok)
    c.check('unchanged', c.and_(same_record(c, va, a), same_record(c, vb, b)))


# ---------------------------------------------------------------------------
# C13
@contract('C13', [A + 'from_activetimeseries', A + '__init__'], trials=200)
def copy_record(c):
    r = record(c, 'A')
    k = c.choice('before', ['nothing', 'padded', 'trimmed'])
    if k == 'padded':
        c.assume(c.call(r.zero_pad, 1.0 / (c.int('N0', 1, 40) * r.dt)).ok)
    if k == 'trimmed':
        t = c.int('start sample', 0, None if c.symbolic else r.nsamples - 2)
        c.assume(t + 1 < r.nsamples)
        c.assume(c.call(r.trim, c.at(r.time, t), c.at(r.time, r.nsamples - 1)).ok)
        c.assume(r.nsamples >= 2)
    v = View(c, r)
    o = c.call(ActiveTimeSeries.from_activetimeseries, r)
    c.check('accepted', o.ok)
    k = o.value
    c.check('equal', same_record(c, v, k))
    c.check('equal step', c.and_(c.is_(k.df, v.df), c.is_(k.multiple, v.multiple)))
    w = View(c, k)
    first, second, vs = (k, r, v) if c.choice('changed', ['copy', 'original']) == 'copy' else (r, k, w)
    op = c.choice('operation', ['stack', 'pad', 'trim'])
    if op == 'stack':
        c.call(first.stack_append, ActiveTimeSeries.from_activetimeseries(second))
    elif op == 'pad':
        c.call(first.zero_pad, 1.0 / (c.int('N1', 1, 40) * v.dt))
    else:
        c.call(first.trim, c.at(first.time, 0), c.at(first.time, v.n - 2))
    c.check('other unchanged', same_record(c, vs, second))
    c.check('other step unchanged', c.and_(c.is_(second.df, vs.df), c.is_(second.multiple, vs.multiple)))
