"""C02, C03, C05-C08, C13 (arrays): Array1D."""
from pydv.harness import contract
from contracts.common import *

A = 'swprocess.array1d.Array1D.'
S = 'swprocess.sensor1c.Sensor1C.'
R = 'swprocess.activetimeseries.ActiveTimeSeries.'


@contract('C05', [A + '__init__', A + '_check_array', A + 'position', S + '__init__', S + '_is_similar'])
def build_sorted(c):
    g = Geo(c, m_lo=1)
    o = c.call(g.build, c)
    c.check('accepted', o.ok)
    arr = o.value
    c.check('same sensors in ascending order', same_array(c, g, arr))
    c.check('positions', c.forall(g.m, lambda i: c.is_(c.at(arr.position(), i), c.at(g.x, i))))


@contract('C05', [A + '__init__', A + '_check_array', A + 'position', S + '__init__', S + '_is_similar'], trials=200)
def build_any_order(c):
    m, n = c.size('m', 1), c.size('n', 2)
    dt = c.real('dt', lo=0, hi=10, open_lo=True, grid=1 / 128)
    delay, ns = c.real('delay', lo=-5, hi=0, grid=1 / 16), c.int('ns', 1, small=6)
    X, M, Y = c.vec('x', m, lo=-6, hi=6, grid=0.125), c.mat('amp', (m, n)), c.vec('y', m, lo=-6, hi=6)
    made = c.family(m, lambda i: Sensor1C(M[i], dt, c.at(X, i), c.at(Y, i), 0.0, nstacks=ns, delay=delay))
    o = c.call(Array1D, made, Source(0, 0, 0))
    distinct = c.forall(m, lambda i: c.forall(i, lambda j: c.not_(c.is_(c.at(X, i), c.at(X, j)))))
    if not o.ok:
        c.check('rejected only for a shared position', c.not_(distinct))
        return
    arr = o.value
    c.check('accepted only distinct positions', distinct)
    c.check('as many sensors', c.is_(arr.nchannels, m))
    c.check('ascending', c.forall(m - 1, lambda i: c.at(arr.sensors, i).x < c.at(arr.sensors, i + 1).x))

    def match(i, j):
        s = c.at(arr.sensors, i)
        return c.and_(c.is_(s.x, c.at(X, j)), c.is_(s.y, c.at(Y, j)),
                      lambda: c.forall(n, lambda k: c.is_(c.at(s.amplitude, k), c.at(M, j, k))))
    c.check('each sensor is a given one with its own record', c.forall(m, lambda i: c.exists(m, lambda j: match(i, j))))
    c.check('each given sensor is there', c.forall(m, lambda j: c.exists(m, lambda i: match(i, j))))


@contract('C05', [A + '__init__', A + '_check_array', S + '_is_similar', R + '_is_similar'], trials=250)
def rejects_dissimilar(c):
    """two groups: m sensors alike and one that differs"""
    g = Geo(c, m_lo=1)
    kind = c.choice('differs', ['dt', 'delay', 'nsamples', 'nstacks', 'x'])
    dt, delay, n, ns = g.dt, g.delay, g.n, g.nstacks
    x = c.real('odd x', lo=-60, hi=60)
    if kind == 'x':
        k = c.int('shares with', 0, None if c.symbolic else g.m - 1)
        c.assume(k < g.m)
        x = c.at(g.x, k)
    else:
        c.assume(c.forall(g.m, lambda i: c.not_(c.is_(c.at(g.x, i), x))))
    if kind == 'dt':
        dt = c.real('odd dt', lo=0, hi=10, open_lo=True, grid=1 / 128)
        c.assume(dt != g.dt)
    elif kind == 'delay':
        delay = c.real('odd delay', lo=-5, hi=0, grid=1 / 16)
        c.assume(delay != g.delay)
    elif kind == 'nsamples':
        n = c.size('odd n', 2)
        c.assume(n != g.n)
    elif kind == 'nstacks':
        ns = c.int('odd ns', 1, small=6)
        c.assume(ns != g.nstacks)
    odd = Sensor1C(c.vec('odd amp', n), dt, x, 0.0, 0.0, nstacks=ns, delay=delay)
    sensors = c.family(g.m, lambda i: Sensor1C(g.A[i], g.dt, c.at(g.x, i), 0.0, 0.0, nstacks=g.nstacks, delay=g.delay))
    place = c.choice('odd one is', ['first', 'last', 'inside'])
    if place == 'first':
        sensors = [odd] + sensors
    elif place == 'last':
        sensors = sensors + [odd]
    else:
        k = c.int('place', 0, None if c.symbolic else g.m)
        c.assume(k <= g.m)
        sensors = sensors[:k] + [odd] + sensors[k:]
    o = c.call(Array1D, sensors, Source(0, 0, 0))
    c.check('rejected', not o.ok)


# ---------------------------------------------------------------------------
# C06
@contract('C06', [A + 'offsets', A + 'array_center_distance', A + 'position', A + '_source_inside'])
def offsets(c):
    g = Geo(c, m_lo=1)
    arr = g.build(c)
    off = arr.offsets
    c.check('one per sensor', c.is_(c.len(off), g.m))
    c.check('distance', c.forall(g.m, lambda i: c.eq(c.at(off, i), abs(g.sx - c.at(g.x, i)))))
    c.check('mean', c.eq(arr.array_center_distance * g.m, c.sum(g.m, lambda i: abs(g.sx - c.at(g.x, i)))))
    c.check('positions', c.forall(g.m, lambda i: c.is_(c.at(arr.position(), i), c.at(g.x, i))))
    c.check('normalised positions', c.forall(g.m, lambda i: c.eq(c.at(arr.position(normalize=True), i), c.at(g.x, i) - c.at(g.x, 0))))
    c.check('inside', c.is_(c.truth(arr._source_inside), c.and_(g.sx > g.lo, g.sx < g.hi)))
    c.check('unchanged', same_array(c, g, arr))


@contract('C06', [A + '_flipped_tseries_and_offsets', A + '_flip_required', A + 'offsets', A + 'timeseriesmatrix'])
def near_to_far(c):
    g = Geo(c, m_lo=2, side='outside')
    arr = g.build(c)
    o = c.call(arr._flipped_tseries_and_offsets)
    c.check('accepted', o.ok)
    t, off = o.value
    c.check('shape', c.and_(c.is_(t.shape[0], g.m), c.is_(t.shape[1], g.n), c.is_(c.len(off), g.m)))
    c.check('near to far', c.forall(g.m - 1, lambda i: c.at(off, i) <= c.at(off, i + 1)))
    right = g.sx >= g.hi

    def one(i):
        k = c.ite(right, g.m - 1 - i, i)
        return c.and_(c.eq(c.at(off, i), abs(g.sx - c.at(g.x, k))),
                      lambda: c.forall(g.n, lambda j: c.is_(c.at(t, i, j), g.row(c, k, j))))
    c.check('every row is the trace at its offset', c.forall(g.m, one))
    c.check('unchanged', same_array(c, g, arr))


# ---------------------------------------------------------------------------
# C07
@contract('C07', [A + 'trim_offsets', A + 'offsets'], trials=250)
def trim_offsets(c):
    g = Geo(c, m_lo=1)
    arr = g.build(c)

    def gen(rng):
        o = [abs(g.sx - float(v)) for v in g.x]
        return rng.choice([rng.choice(o), rng.choice(o) + rng.choice([-0.1, 0.1]), rng.uniform(-1, max(o) + 1)])
    lo, hi = c.real('min', gen=gen), c.real('max', gen=gen)
    keep = [None]

    def ok(i):
        d = abs(g.sx - c.at(g.x, i))
        return c.and_(d > lo, d < hi)
    o = c.call(arr.trim_offsets, lo, hi)
    n, sel = c.select(g.m, ok)
    c.check('rejected exactly when none qualifies', c.is_(c.truth(o.ok), n > 0))
    if not o.ok:
        c.check('unchanged', same_array(c, g, arr))
        return
    c.check('as many as qualify', c.is_(arr.nchannels, n))

    def match(i):
        s, j = c.at(arr.sensors, i), sel(i)
        return c.and_(c.is_(s.x, c.at(g.x, j)), ok(j), c.is_(s.dt, g.dt), c.is_(s.delay, g.delay), c.is_(s.nstacks, g.nstacks),
                      c.is_(s.nsamples, g.n), lambda: c.forall(g.n, lambda k: c.is_(c.at(s.amplitude, k), g.row(c, j, k))))
    c.check('the qualifying ones, in order, unaltered', c.forall(n, match))
    c.check('source unchanged', c.and_(c.is_(arr.source.x, g.sx), c.is_(arr.source.y, g.sy)))


# ---------------------------------------------------------------------------
# C08
@contract('C08', [A + 'timeseriesmatrix'])
def matrix_raw(c):
    g = Geo(c, m_lo=1)
    arr = g.build(c)
    o = c.call(arr.timeseriesmatrix)
    c.check('accepted', o.ok)
    t = o.value
    c.check('shape', c.and_(c.is_(t.shape[0], g.m), c.is_(t.shape[1], g.n)))
    c.check('rows', c.forall(g.m, lambda i: c.forall(g.n, lambda j: c.is_(c.at(t, i, j), g.row(c, i, j)))))
    c.check('unchanged', same_array(c, g, arr))


@contract('C08', [A + 'timeseriesmatrix'])
def matrix_each(c):
    g = Geo(c, m_lo=1)
    c.assume(c.forall(g.m, lambda i: c.exists(g.n, lambda j: g.row(c, i, j) != 0)))
    arr = g.build(c)
    o = c.call(arr.timeseriesmatrix, normalize='each')
    c.check('accepted', o.ok)
    t = o.value

    def one(i):
        k = c.largest(g.n, lambda j: abs(g.row(c, i, j)))
        big = abs(g.row(c, i, k))
        return c.and_(big > 0, lambda: c.forall(g.n, lambda j: c.eq(c.at(t, i, j) * big, g.row(c, i, j))))
    c.check('rows over their own largest', c.forall(g.m, one))
    c.check('unchanged', same_array(c, g, arr))


@contract('C08', [A + 'timeseriesmatrix'])
def matrix_all(c):
    g = Geo(c, m_lo=1)
    c.assume(c.exists(g.m, lambda i: c.exists(g.n, lambda j: g.row(c, i, j) != 0)))
    arr = g.build(c)
    o = c.call(arr.timeseriesmatrix, normalize='all')
    c.check('accepted', o.ok)
    t = o.value
    p = c.largest(g.m, lambda i: abs(g.row(c, i, c.largest(g.n, lambda j: abs(g.row(c, i, j))))))
    q = c.largest(g.n, lambda j: abs(g.row(c, p, j)))
    big = abs(g.row(c, p, q))
    c.check('every trace over the largest of all', c.and_(big > 0, lambda: c.forall(g.m, lambda i: c.forall(g.n, lambda j: c.eq(
        c.at(t, i, j) * big, g.row(c, i, j))))))
    c.check('unchanged', same_array(c, g, arr))


@contract('C08', [A + 'timeseriesmatrix'], modes='C', trials=150)
def matrix_detrended(c):
    g = Geo(c, m_lo=1, n_lo=3)
    norm = c.choice('normalize', ['none', 'each', 'all'])
    arr = g.build(c)

    def fit(i):
        n = g.n
        a = [float(v) for v in g.A[i]]
        xm, am = (n - 1) / 2, sum(a) / n
        b = sum((j - xm) * (a[j] - am) for j in range(n)) / sum((j - xm) ** 2 for j in range(n))
        return [a[j] - am - b * (j - xm) for j in range(n)]
    rows = [fit(i) for i in range(g.m)]
    mx = [max(abs(v) for v in r) for r in rows]
    c.assume(min(mx) > 1e-6)
    o = c.call(arr.timeseriesmatrix, detrend=True, normalize=norm)
    c.check('accepted', o.ok)
    t = o.value
    d = {'none': [1.0] * g.m, 'each': mx, 'all': [max(mx)] * g.m}[norm]
    c.check('rows', all(abs(t[i, j] - rows[i][j] / d[i]) <= 1e-6 * max(1, mx[i] / d[i]) for i in range(g.m) for j in range(g.n)))
    c.check('unchanged', same_array(c, g, arr))


# ---------------------------------------------------------------------------
# C02, C03: every sensor of an array
@contract('C02', [A + 'zero_pad', R + 'zero_pad', R + 'df'])
def pad_array(c):
    g = Geo(c, m_lo=1)
    arr = g.build(c)
    df = c.real('df', lo=0, open_lo=True, gen=lambda rng: 1 / (g.dt * rng.choice([rng.uniform(0.6, 40), rng.randint(1, 40)])))
    # the same record on its own
    k = c.int('k', 0, None if c.symbolic else g.m - 1)
    c.assume(k < g.m)
    one = ActiveTimeSeries(g.A[k], g.dt, nstacks=g.nstacks, delay=g.delay)
    o1 = c.call(one.zero_pad, df)
    o = c.call(arr.zero_pad, df)
    c.check('accepted alike', c.is_(c.truth(o.ok), c.truth(o1.ok)))
    c.assume(o.ok)
    s = c.at(arr.sensors, k)
    c.check('every sensor padded', c.and_(c.is_(s.nsamples, one.nsamples), c.is_(s.df, one.df), c.is_(s.multiple, one.multiple), c.is_(s.dt, g.dt),
                                          c.is_(s.delay, g.delay), c.is_(s.nstacks, g.nstacks), c.is_(s.x, c.at(g.x, k))))
    c.check('samples', c.forall(one.nsamples, lambda j: c.is_(c.at(s.amplitude, j), c.at(one.amplitude, j))))
    c.check('geometry', c.and_(c.is_(arr.nchannels, g.m), c.is_(arr.source.x, g.sx)))


@contract('C03', [A + 'trim', R + 'trim'])
def trim_array(c):
    g = Geo(c, m_lo=1)
    arr = g.build(c)

    def gen(rng):
        return g.delay + g.dt * rng.choice([rng.uniform(-1, g.n), rng.randint(0, g.n - 1)])
    t0, t1 = c.real('t0', gen=gen), c.real('t1', gen=gen)
    k = c.int('k', 0, None if c.symbolic else g.m - 1)
    c.assume(k < g.m)
    one = ActiveTimeSeries(g.A[k], g.dt, nstacks=g.nstacks, delay=g.delay)
    o1 = c.call(one.trim, t0, t1)
    o = c.call(arr.trim, t0, t1)
    c.check('accepted alike', c.is_(c.truth(o.ok), c.truth(o1.ok)))
    if not o.ok:
        c.check('unchanged', same_array(c, g, arr))
        return
    s = c.at(arr.sensors, k)
    c.assume(one.nsamples >= 2)
    c.check('every sensor trimmed', c.and_(c.is_(s.nsamples, one.nsamples), c.is_(s.delay, one.delay), c.is_(s.dt, g.dt),
                                           c.is_(s.nstacks, g.nstacks), c.is_(s.x, c.at(g.x, k))))
    c.check('samples', c.forall(one.nsamples, lambda j: c.is_(c.at(s.amplitude, j), c.at(one.amplitude, j))))
    c.check('geometry', c.and_(c.is_(arr.nchannels, g.m), c.is_(arr.source.x, g.sx)))


# ---------------------------------------------------------------------------
# C13
@contract('C13', [S + 'from_sensor1c', S + 'from_activetimeseries'])
def copy_sensor(c):
    n = c.size('n', 2)
    ns, delay = c.int('ns', 1, small=6), c.real('delay', lo=-5, hi=0, grid=1 / 16)
    x, y, z = c.real('x', lo=-50, hi=50), c.real('y', lo=-50, hi=50), c.real('z', lo=-50, hi=50)
    s = Sensor1C(c.vec('amp', n), c.real('dt', lo=0, hi=10, open_lo=True, grid=1 / 128), x, y, z, nstacks=ns, delay=delay)
    if c.choice('before', ['nothing', 'padded']) == 'padded':
        c.assume(c.call(s.zero_pad, 1.0 / (c.int('N0', 1, 40) * s.dt)).ok)
    v = View(c, s)
    if c.choice('how', ['sensor', 'record']) == 'sensor':
        o = c.call(Sensor1C.from_sensor1c, s)
    else:
        o = c.call(Sensor1C.from_activetimeseries, s, x, y, z)
    c.check('accepted', o.ok)
    k = o.value
    c.check('equal', c.and_(same_record(c, v, k), c.is_(k.df, v.df), c.is_(k.multiple, v.multiple)))
    c.check('position', c.and_(c.is_(k.x, x), c.is_(k.y, y), c.is_(k.z, z)))
    first, second = (k, s) if c.choice('changed', ['copy', 'original']) == 'copy' else (s, k)
    if c.choice('operation', ['stack', 'pad']) == 'stack':
        c.call(first.stack_append, Sensor1C.from_sensor1c(second))
    else:
        c.call(first.zero_pad, 1.0 / (c.int('N1', 1, 40) * v.dt))
    c.check('other unchanged', c.and_(same_record(c, v, second), c.is_(second.df, v.df)))


@contract('C13', ['swprocess.source.Source.from_source', 'swprocess.source.Source.__init__'])
def copy_source(c):
    x, y, z = c.real('x'), c.real('y'), c.real('z')
    s = Source(x, y, z)
    o = c.call(Source.from_source, s)
    c.check('accepted', o.ok)
    k = o.value
    c.check('equal', c.and_(c.is_(k.x, x), c.is_(k.y, y), c.is_(k.z, z), k == s))
    c.check('another object', k is not s)
    other = Source(c.real('x2', lo=-2, hi=2), c.real('y2', lo=-2, hi=2), c.real('z2', lo=-2, hi=2))
    c.check('equality', c.is_(c.truth(s == other), c.and_(c.is_(x, other.x), c.is_(y, other.y), c.is_(z, other.z))))


@contract('C13', [A + 'from_array1d', S + 'from_sensor1c'])
def copy_array(c):
    g = Geo(c, m_lo=1)
    arr = g.build(c)
    o = c.call(Array1D.from_array1d, arr)
    c.check('accepted', o.ok)
    k = o.value
    c.check('equal', same_array(c, g, k))
    first, second = (k, arr) if c.choice('changed', ['copy', 'original']) == 'copy' else (arr, k)
    op = c.choice('operation', ['pad', 'trim', 'select', 'mute', 'stack'])
    if op == 'pad':
        c.call(first.zero_pad, 1.0 / (c.int('N1', 1, 40) * g.dt))
    elif op == 'trim':
        if c.symbolic:
            c.call(first.trim, c.real('t0'), c.real('t1'))
        else:
            c.call(first.trim, c.at(first.sensors[0].time, 0), c.at(first.sensors[0].time, g.n - 2))
    elif op == 'select':
        c.call(first.trim_offsets, c.real('min', lo=-1, hi=20), c.real('max', lo=-1, hi=60))
    elif op == 'mute':
        if not c.symbolic:
            c.call(first.mute)
    else:
        c.call(first.sensors[0].stack_append, Sensor1C.from_sensor1c(second.sensors[0]))
    c.check('other unchanged', same_array(c, g, second))
