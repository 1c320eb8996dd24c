"""C14-C20 dispersion transforms, C35 signal-to-noise ratio."""
from pydv.harness import contract, trap
from contracts.common import *
from swprocess import wavefieldtransforms as wt
from swprocess.register import WavefieldTransformRegistry
from swprocess.snr import SignaltoNoiseRatio

W = 'swprocess.wavefieldtransforms.'
AW = W + 'AbstractWavefieldTransform.'
A = 'swprocess.array1d.Array1D.'
P = 'swprocess.activetimeseries.ActiveTimeSeries.'


def klass(name):
    return WavefieldTransformRegistry.create_class(name)


def real_result(c, tag='', nv=None, nf=None, lo=-100, kinds=('phaseshift', 'fdbf', 'slantstack', 'fk')):
    """a transform result with arbitrary real power"""
    nv = c.size('nv' + tag) if nv is None else nv
    nf = c.size('nf' + tag) if nf is None else nf
    Pw = c.mat('P' + tag, (nv, nf), lo=lo, hi=100)
    name = c.choice('kind' + tag, list(kinds))
    return klass(name)(c.vec('f' + tag, nf, lo=0), c.vec('v' + tag, nv, lo=1), Pw.copy()), Pw, nv, nf


# ---------------------------------------------------------------------------
# C14
@contract('C14', [AW + 'normalize', AW + '__init__'], trials=200)
def normalise_once(c):
    t, Pw, nv, nf = real_result(c)
    c.assume(c.forall(nf, lambda j: abs(c.at(Pw, c.largest(nv, lambda i: abs(c.at(Pw, i, j))), j)) > 0))
    normalised(c, t, Pw, nv, nf, 'by')


@contract('C14', [AW + 'normalize', AW + '__init__'], trials=300)
def normalise_twice(c):
    t, Pw, nv, nf = real_result(c, kinds=['phaseshift']) if c.symbolic else real_result(c)
    c.assume(c.forall(nf, lambda j: abs(c.at(Pw, c.largest(nv, lambda i: abs(c.at(Pw, i, j))), j)) > 0))
    row_max = lambda i: abs(c.at(Pw, i, c.largest(nf, lambda j: abs(c.at(Pw, i, j)))))
    c.lemma('a largest value that is positive', row_max(c.largest(nv, row_max)) > 0)
    for k in range(1 if c.symbolic else c.choice('before', [1, 2, 3])):
        c.call(t.normalize, by=c.choice(f'by{k}', ['none', 'absolute-maximum', 'frequency-maximum']))
    normalised(c, t, Pw, nv, nf, 'by')


def normalised(c, t, Pw, nv, nf, name):
    by = c.choice(name, ['none', 'absolute-maximum', 'frequency-maximum'])
    o = c.call(t.normalize, by=by)
    c.check('accepted', o.ok)
    R = t.power
    c.check('shape', c.and_(c.is_(R.shape[0], nv), c.is_(R.shape[1], nf)))
    if by == 'none':
        c.check('absolute values', c.forall(nv, lambda i: c.forall(nf, lambda j: c.eq(c.at(R, i, j), abs(c.at(Pw, i, j))))))
    elif by == 'frequency-maximum':
        def col(j):
            big = abs(c.at(Pw, c.largest(nv, lambda i: abs(c.at(Pw, i, j))), j))
            return c.forall(nv, lambda i: c.eq(c.at(R, i, j) * big, abs(c.at(Pw, i, j)), scale=big))
        c.check('each column over its largest', c.forall(nf, col))
    else:
        def row_max(i):
            return abs(c.at(Pw, i, c.largest(nf, lambda j: abs(c.at(Pw, i, j)))))
        big = row_max(c.largest(nv, row_max))
        c.check('each value over the largest of all', c.forall(nv, lambda i: c.forall(nf, lambda j: c.eq(c.at(R, i, j) * big, abs(c.at(Pw, i, j)), scale=big))))


@contract('C14', [AW + 'normalize'], modes='C', trials=150)
def normalise_complex(c):
    """complex power (slant stack, beamformer): the absolute values are what is normalised"""
    nv, nf = c.size('nv'), c.size('nf')
    Z = c.mat('re', (nv, nf)) + 1j * c.mat('im', (nv, nf))
    c.assume(bool(np.all(np.max(np.abs(Z), axis=0) > 0.5)))
    t = klass(c.choice('kind', ['slantstack', 'fdbf', 'empty']))(np.arange(1.0, nf + 1), np.arange(1.0, nv + 1), Z.copy())
    for k in range(c.choice('before', [0, 1, 2, 3])):
        c.call(t.normalize, by=c.choice(f'by{k}', ['none', 'absolute-maximum', 'frequency-maximum']))
    by = c.choice('by', ['none', 'absolute-maximum', 'frequency-maximum'])
    c.check('accepted', c.call(t.normalize, by=by).ok)
    M = [[abs(z) for z in r] for r in Z.tolist()]
    d = [1.0] * nf if by == 'none' else [max(max(r) for r in M)] * nf if by == 'absolute-maximum' else [max(M[i][j] for i in range(nv)) for j in range(nf)]
    c.check('values', all(abs(t.power[i, j] - M[i][j] / d[j]) <= 1e-9 * max(1, M[i][j] / d[j]) for i in range(nv) for j in range(nf)))


@contract('C14', [AW + 'normalize'], modes='C', trials=40)
def normalise_unknown(c):
    t, Pw, nv, nf = real_result(c)
    o = c.call(t.normalize, by=c.choice('by', ['maximum', '', 'frequency', 'Absolute-maximum']))
    c.check('rejected', not o.ok)
    c.check('power as it was', bool(np.all(t.power == Pw)))


# ---------------------------------------------------------------------------
# C15: frequencies
def spectrum_array(c, side='outside', m_lo=2, n_lo=4, padded=None, gap=True):
    g = Geo(c, m_lo=m_lo, n_lo=n_lo, side=side)
    arr = g.build(c)
    if padded if padded is not None else c.choice('padded', [0, 1]):
        N = c.int('N', 1, None if c.symbolic else 30, small=12)
        c.assume(c.call(arr.zero_pad, 1.0 / (N * g.dt)).ok)
    return g, arr


def limits(c, g, arr):
    n = arr.sensors[0].nsamples
    step = 1.0 / (n * g.dt)
    fmin = c.real('fmin', lo=0, gen=lambda rng: step * rng.choice([0, 1, 2, rng.uniform(0, n / 2)]))
    fmax = c.real('fmax', lo=0, gen=lambda rng: max(fmin, step * rng.choice([n // 2, n - 1, 2 * n, rng.uniform(0, n)])))
    c.assume(fmin <= fmax)
    return n, step, fmin, fmax


def check_frequencies(c, f, n, step, fmin, fmax, mult):
    k0 = c.argmin(n, lambda k: abs(k * step - fmin))
    k1 = c.argmin(n, lambda k: abs(k * step - fmax))
    nf = c.len(f)
    c.check('number of frequencies', c.and_(nf >= 1, (nf - 1) * mult <= k1 - k0, nf * mult > k1 - k0))
    c.check('bins from the one nearest the minimum', c.forall(nf, lambda j: c.eq(c.at(f, j), (k0 + j * mult) * step)))
    return k0, nf


def settings(c, fmin, fmax, **kw):
    s = dict(fmin=fmin, fmax=fmax, vmin=100.0, vmax=300.0, nvel=3, vspace='linear')
    s['fdbf-specific'] = dict(weighting='none', steering='plane')
    s.update(kw)
    return s


@contract('C15', [AW + '_frequency_keep_ids', W + 'PhaseShift.transform', P + 'multiple', P + 'df', P + '_df'], trials=120)
def frequencies(c):
    g, arr = spectrum_array(c)
    n, step, fmin, fmax = limits(c, g, arr)
    kind = c.choice('kind', ['empty', 'phaseshift', 'fdbf', 'fk', 'slantstack'] if not c.symbolic else ['empty'])
    s = settings(c, fmin, fmax)
    if kind == 'slantstack' and not c.symbolic:
        span = g.hi - g.lo
        s['vmin'], s['vmax'] = 3.0 * span / (g.dt * (g.n - 1)) + 1, 5.0 * span / (g.dt * (g.n - 1)) + 2
    T = klass(kind)
    o = c.call(T.from_array, arr, s)
    c.check('accepted', o.ok)
    f = o.value.frequencies
    mult = arr.sensors[0].multiple
    k0, nf = check_frequencies(c, f, n, step, fmin, fmax, mult)
    c.check('one column each', c.and_(c.is_(o.value.power.shape[1], nf), c.is_(o.value.power.shape[0], s['nvel'])))
    c.check('consecutive by the reported step', c.forall(nf - 1, lambda j: c.eq(c.at(f, j + 1) - c.at(f, j), arr.sensors[0].df, tol=1e-7)))


@contract('C15', [AW + '_frequency_keep_ids', 'swprocess.snr.SignaltoNoiseRatio.from_array1ds', P + 'multiple'], modes='C', trials=120)
def snr_frequencies(c):
    g, arr = spectrum_array(c, side='any', m_lo=1)
    n, step, fmin, fmax = limits(c, g, arr)
    noise = Array1D.from_array1d(arr)
    for k, q in enumerate(noise.sensors):
        q._amp = np.array(q._amp) + np.arange(n) * (k + 1.0)
    o = c.call(SignaltoNoiseRatio.from_array1ds, arr, noise, fmin=fmin, fmax=fmax)
    c.check('accepted', o.ok)
    f = o.value.frequencies
    k0, nf = check_frequencies(c, f, n, step, fmin, fmax, arr.sensors[0].multiple)
    c.check('one ratio each', c.is_(c.len(o.value.snr), nf))
    c.check('consecutive by the reported step', c.forall(nf - 1, lambda j: c.eq(f[j + 1] - f[j], arr.sensors[0].df, tol=1e-7)))


# ---------------------------------------------------------------------------
# C16
@contract('C16', [AW + 'find_peak_power', AW + '__init__'], trials=250)
def peaks(c):
    t, Pw, nv, nf = real_result(c, lo=0)
    o = c.call(t.find_peak_power) if c.choice('how', ['default', 'named']) == 'default' else c.call(t.find_peak_power, by='frequency-maximum')
    c.check('accepted', o.ok)
    p = o.value
    c.check('one per frequency', c.is_(c.len(p), nf))

    def one(j):
        k = c.largest(nv, lambda i: c.at(Pw, i, j))
        return c.is_(c.at(p, j), c.at(t.velocities, k))
    c.check('velocity of the first largest power', c.forall(nf, one))
    c.check('power unchanged', c.forall(nv, lambda i: c.forall(nf, lambda j: c.is_(c.at(t.power, i, j), c.at(Pw, i, j)))))


@contract('C16', [AW + 'find_peak_power'], modes='C', trials=120)
def peaks_complex(c):
    """complex power (slant stack, beamformer): the largest magnitude, before and after normalising"""
    nv, nf = c.size('nv'), c.size('nf')
    Z = c.mat('re', (nv, nf)) + 1j * c.mat('im', (nv, nf))
    V = c.increasing('v', nv, lo=50.0)
    t = klass(c.choice('kind', ['slantstack', 'fdbf', 'empty']))(np.arange(1.0, nf + 1), V.copy(), Z.copy())
    if c.choice('normalised', [0, 1]):
        c.assume(bool(np.all(np.max(np.abs(Z), axis=0) > 0.5)))
        c.call(t.normalize, by=c.choice('by', ['none', 'absolute-maximum', 'frequency-maximum']))
    o = c.call(t.find_peak_power)
    c.check('accepted', o.ok)
    c.check('one per frequency', len(o.value) == nf)
    M = [[abs(z) for z in r] for r in Z.tolist()]
    for j in range(nf):
        k = [i for i in range(nv) if V[i] == o.value[j]]
        c.check('velocity of the largest power', len(k) == 1 and M[k[0]][j] >= max(M[i][j] for i in range(nv)) * (1 - 1e-12))


@contract('C16', [AW + 'find_peak_power'], modes='C', trials=30)
def peaks_unknown(c):
    t, Pw, nv, nf = real_result(c)
    c.check('rejected', not c.call(t.find_peak_power, by=c.choice('by', ['maximum', 'absolute-maximum', 'none', ''])).ok)


@contract('C16', [AW + '_create_vector', AW + 'from_array'], modes='C', trials=150)
def trial_velocities(c):
    g, arr = spectrum_array(c, padded=0)
    n, step, fmin, fmax = limits(c, g, arr)
    kind = c.choice('kind', ['empty', 'phaseshift', 'fdbf', 'fk'])
    vmin = c.real('vmin', lo=1, hi=300)
    vmax = vmin + c.real('dv', lo=1, hi=900)
    nvel = c.int('nvel', 2, 9)
    sp = c.choice('vspace', ['linear', 'lin', 'log', 'logarithmic', 'cubic', ''])
    o = c.call(klass(kind).from_array, arr, settings(c, fmin, fmax, vmin=vmin, vmax=vmax, nvel=nvel, vspace=sp))
    if sp in ('cubic', ''):
        c.check('unknown spacing rejected', not o.ok)
        return
    c.check('accepted', o.ok)
    v = o.value.velocities
    c.check('number', len(v) == nvel and o.value.power.shape[0] == nvel)
    if sp.startswith('lin'):
        want = [vmin + (vmax - vmin) * i / (nvel - 1) for i in range(nvel)]
    else:
        want = [vmin * (vmax / vmin) ** (i / (nvel - 1)) for i in range(nvel)]
    c.check('values', all(abs(v[i] - want[i]) <= 1e-9 * want[i] for i in range(nvel)))


# ---------------------------------------------------------------------------
# C17
@contract('C17', [W + 'EmptyWavefieldTransform.stack', W + 'EmptyWavefieldTransform.__init__'], trials=150)
def stack_means(c):
    nv, nf = c.size('nv'), c.size('nf')
    Z = c.mat('Z', (nv, nf))
    E = klass('empty')(c.vec('f', nf, lo=0), c.vec('v', nv, lo=1), Z.copy())
    c.check('starts empty', c.is_(E.n, 0))
    K = 2 if c.symbolic else c.int('K', 1, 5)
    mats = []
    for k in range(K):
        M = c.mat(f'P{k}', (nv, nf))
        t = klass('phaseshift')(E.frequencies, E.velocities, M.copy())
        if k and c.choice(f'already stacked {k}', [0, 1]):
            # a result which itself represents two
            t2 = klass('empty')(E.frequencies, E.velocities, Z.copy())
            c.call(t2.stack, t)
            c.call(t2.stack, t)
            t, w = t2, 2
        else:
            w = 1
        o = c.call(E.stack, t)
        c.check('accepted', o.ok)
        c.check('other unchanged', c.and_(c.is_(t.n, w), lambda: c.forall(nv, lambda i: c.forall(nf, lambda j: c.eq(c.at(t.power, i, j), c.at(M, i, j))))))
        mats.append((M, w))
    n = sum(w for _, w in mats)
    c.check('count', c.is_(E.n, n))
    c.check('mean', c.forall(nv, lambda i: c.forall(nf, lambda j: c.eq(
        c.at(E.power, i, j) * n, sum(w * c.at(M, i, j) for M, w in mats), scale=1 if c.symbolic else 100))))
    c.check('same grid', c.and_(c.is_(E.power.shape[0], nv), c.is_(E.power.shape[1], nf)))


@contract('C17', [W + 'EmptyWavefieldTransform.stack', W + 'EmptyWavefieldTransform.from_array'], modes='C', trials=30)
def stack_from_array(c):
    g, arr = spectrum_array(c)
    n, step, fmin, fmax = limits(c, g, arr)
    s = settings(c, fmin, fmax)
    E = klass('empty').from_array(arr, s)
    K = c.int('K', 1, 4)
    rs = []
    for k in range(K):
        a2 = Array1D.from_array1d(arr)
        for q in a2.sensors:
            q._amp = np.array(q._amp) * (k + 1) + c.real(f'r{k}', lo=-1, hi=1)
            q._amp[0] += 500.0
        r = klass(c.choice(f'kind{k}', ['phaseshift', 'fdbf', 'fk'])).from_array(a2, s)
        rs.append(np.array(r.power))
        c.assume(bool(np.all(np.isfinite(r.power))))       # a spectral value of exactly zero has no phase
        c.check('accepted', c.call(E.stack, r).ok)
        c.check('other unchanged', r.n == 1 and bool(np.all(r.power == rs[-1])))
    c.check('count', E.n == K)
    mean = sum(rs) / K
    c.check('mean', bool(np.all(np.abs(E.power - mean) <= 1e-9 * max(1e-9, np.max(np.abs(rs))))))
    c.check('grid', bool(np.all(E.frequencies == r.frequencies)) and bool(np.all(E.velocities == r.velocities)))


@contract('C17', [W + 'EmptyWavefieldTransform.stack'], modes='C', trials=20)
def stack_rejects(c):
    nv, nf = c.size('nv'), c.size('nf')
    Z = c.mat('Z', (nv, nf))
    E = klass('empty')(c.vec('f', nf, lo=0), c.vec('v', nv, lo=1), Z.copy())
    o = c.call(E.stack, c.choice('other', [3, 'x', None, Z]))
    c.check('rejected', not o.ok)


# ---------------------------------------------------------------------------
# C18 - C20
def near_to_far(c, g):
    """(offset, trace index) from nearest to farthest"""
    right = g.sx >= g.hi

    def idx(i):
        return c.ite(right, g.m - 1 - i, i)
    return (lambda i: abs(g.sx - c.at(g.x, idx(i)))), idx


def live(c, spec, m, bins):
    """no trace has a vanishing spectral value at the bins used"""
    if not c.symbolic:
        mag = max(abs(spec(i, k)) for i in range(m) for k in bins)
        c.assume(all(abs(spec(i, k)) > 1e-6 * max(mag, 1e-9) for i in range(m) for k in bins))


@contract('C18', [W + 'PhaseShift.transform', A + '_flipped_tseries_and_offsets', AW + '_frequency_keep_ids'], trials=80, budget=120)
def phase_shift(c):
    g, arr = spectrum_array(c)
    n, step, fmin, fmax = limits(c, g, arr)
    nv = c.size('nv', 1, 3)
    vel = c.vec('vel', nv, lo=1, hi=800)
    off, idx = near_to_far(c, g)
    spec = c.dft(g.m, n, lambda i: arr.sensors[i].amplitude if not c.symbolic else c.at(arr.sensors, i).amplitude)
    mult = arr.sensors[0].multiple
    if c.symbolic:
        c.assume(c.forall(g.m, lambda i: c.forall(n, lambda k: c.not_(c.is_(abs(spec(i, k)), 0.0)))))
    o = c.call(klass('phaseshift').transform, arr, vel, settings(c, fmin, fmax))
    if not c.symbolic:
        k0 = c.argmin(n, lambda k: abs(k * step - fmin))
        k1 = c.argmin(n, lambda k: abs(k * step - fmax))
        live(c, spec, g.m, range(k0, k1 + 1, mult))
    c.check('accepted', o.ok)
    f, pw = o.value
    k0 = c.argmin(n, lambda k: abs(k * step - fmin))
    nf = c.len(f)
    c.check('shape', c.and_(c.is_(pw.shape[0], nv), c.is_(pw.shape[1], nf)))
    two_pi = 2 * c.pi

    def inner(i, j, r):
        b = k0 + j * mult
        z = spec(idx(i), b)
        return c.quot(z, abs(z)) * c.cexp(0.0, c.quot(two_pi * (b * step) * off(i), c.at(vel, r)))

    def want(r, j):
        return abs(c.sum(g.m - 1, lambda i: 0.5 * (off(i + 1) - off(i)) * (inner(i, j, r) + inner(i + 1, j, r))))
    span = off(g.m - 1) - off(0)
    c.check('trapezoidal slant integral', c.forall(nv, lambda r: c.forall(nf, lambda j: c.eq(c.at(pw, r, j), want(r, j), scale=None if c.symbolic else span, tol=1e-6))))
    if not c.symbolic:
        c.check('within the offset span', c.forall(nv, lambda r: c.forall(nf, lambda j: pw[r, j] <= span * (1 + 1e-9))))
    c.check('unchanged', c.forall(g.m, lambda i: c.forall(g.n, lambda j: c.is_(c.at(c.at(arr.sensors, i).amplitude, j), g.row(c, i, j)))))


def bessel_angle(x):
    """angle of the zero-order Hankel function of the first kind, from series and quadrature free of scipy.special"""
    import math
    j = y = 0.0
    # series, used for |x| <= 25 in extended precision
    from fractions import Fraction
    import decimal
    d = decimal.getcontext()
    d.prec = 60
    D = decimal.Decimal
    q = D(x) * D(x) / 4
    term, s, ys, h = D(1), D(0), D(0), D(0)
    for k in range(0, 120):
        if k:
            term = term * (-q) / (D(k) * D(k))
            h += D(1) / D(k)
            ys -= term * h
        s += term
    gam = D('0.57721566490153286060651209008240243104215933593992')
    pi = D('3.1415926535897932384626433832795028841971693993751')
    y = (2 / pi) * (((D(x) / 2).ln() + gam) * s + ys)
    return math.atan2(float(y), float(s))


@contract('C19', [W + 'FDBF.transform', W + 'FDBF._spatiospectral_correlation_matrix', W + 'FK.from_array', A + '_flipped_tseries_and_offsets'], modes='C', trials=80)
def beamformer(c):
    import cmath
    import math
    g, arr = spectrum_array(c)
    n, step, fmin, fmax = limits(c, g, arr)
    c.assume(fmin > step * 0.6)
    weighting = c.choice('weighting', ['none', 'sqrt', 'invamp'])
    steering = c.choice('steering', ['plane', 'cylindrical'])
    off, idx = near_to_far(c, g)
    spec = c.dft(g.m, n, lambda i: arr.sensors[i].amplitude)
    nvel = c.int('nvel', 2, 4)
    # keep the argument of the Bessel functions within the range of the reference
    top = 2 * math.pi * (n * step) * max(off(0), off(g.m - 1))
    vmin = max(1.0, top / 24.0) * c.choice('slow', [1.0, 1.5, 4.0])
    vmax = vmin * c.choice('range', [1.5, 3.0])
    fk = c.choice('transform', ['fdbf', 'fk'])
    spare = c.choice('specific', ['given', 'given', 'missing'])
    s = settings(c, fmin, fmax, vmin=vmin, vmax=vmax, nvel=nvel)
    s['fdbf-specific'] = dict(weighting=weighting, steering=steering)
    if spare == 'missing':
        del s['fdbf-specific']
    import copy
    before = copy.deepcopy(s)
    if fk == 'fk' or spare == 'missing':
        weighting, steering = 'none', 'plane'
    mult = arr.sensors[0].multiple
    o = c.call(klass(fk).from_array, arr, s)
    k0 = c.argmin(n, lambda k: abs(k * step - fmin))
    k1 = c.argmin(n, lambda k: abs(k * step - fmax))
    c.assume(k0 >= 1 and k1 >= k0)
    bins = range(k0, k1 + 1, mult)
    live(c, spec, g.m, bins)
    # a sensor at the source has no cylindrical phase
    c.assume(steering == 'plane' or all(off(i) > 0.01 for i in range(g.m)))
    c.check('accepted', o.ok)
    c.check('settings unchanged', s == before)
    pw, vel = o.value.power, o.value.velocities
    c.check('shape', pw.shape == (nvel, len(bins)))
    for j, k in enumerate(bins):
        z = [spec(idx(i), k) for i in range(g.m)]
        if weighting == 'invamp':
            z = [v / abs(v) for v in z]
        mag = sum(abs(v) for v in z) ** 2 * max(1.0, max(off(i) for i in range(g.m)) ** 2)
        for r in range(nvel):
            kx = [2 * math.pi * k * step / vel[r] * off(i) for i in range(g.m)]
            e = [cmath.exp(-1j * (bessel_angle(v) if steering == 'cylindrical' else v)) for v in kx]
            want = sum(e[p].conjugate() * z[p] * z[q].conjugate() * (off(p) * off(q) if weighting == 'sqrt' else 1.0) * e[q]
                       for p in range(g.m) for q in range(g.m))
            c.check('quadratic form', abs(pw[r, j] - want) <= 1e-7 * mag)
    c.check('unchanged', c.forall(g.m, lambda i: c.forall(g.n, lambda j: c.is_(arr.sensors[i].amplitude[j], g.row(c, i, j)))))


@contract('C19', [W + 'FDBF._spatiospectral_correlation_matrix'], modes='C', trials=60)
def cross_spectra(c):
    """the cross-spectral matrix of several blocks is the block average"""
    m, n, b = c.size('m', 1, 4), c.size('n', 2, 6), c.size('b', 1, 3)
    T = c.mat('t', (m, n, b))
    inv = c.choice('weighting', [None, 'invamp', 'none', 'sqrt'])
    keep = [k for k in range(n) if c.choice(f'keep{k}', [0, 1])] or None
    spec = [c.dft(m, n, lambda i: T[i, :, q]) for q in range(b)]
    bins = range(n) if keep is None else keep

    def z(i, k, q):
        v = spec[q](i, k)
        return v / abs(sum(spec[p](i, k) for p in range(b)) / b) if inv == 'invamp' else v
    if inv == 'invamp':
        c.assume(all(abs(sum(spec[p](i, k) for p in range(b)) / b) > 1e-3 for i in range(m) for k in bins))
    o = c.call(klass('fdbf')._spatiospectral_correlation_matrix, T.copy(), frq_ids=keep, weighting=inv)
    c.check('accepted', o.ok)
    S = o.value
    c.check('shape', S.shape == (m, m, len(bins)))
    for j, k in enumerate(bins):
        for p in range(m):
            for q in range(m):
                want = sum(z(p, k, t) * z(q, k, t).conjugate() for t in range(b)) / b
                mag = max(1e-9, max(abs(z(i, k, t)) for i in range(m) for t in range(b))) ** 2
                c.check('average outer product', abs(S[p, q, j] - want) <= 1e-8 * mag)


def intercepts(c, g, vel, nv):
    """a slant stack exists: the slowest moveout is shorter than the record"""
    span = g.hi - g.lo
    if c.symbolic:
        c.assume(c.forall(nv, lambda r: span / c.at(vel, r) < (g.n - 2) * g.dt))
        return
    sh = span / float(min(vel)) / g.dt
    # moveouts within rounding of a sample boundary are left out
    c.assume(sh < g.n - 2)


@contract('C20', [W + 'SlantStack.slant_stack', A + '_flipped_tseries_and_offsets'], modes='C', trials=250)
def slant_stack(c):
    import math
    g = Geo(c, m_lo=2, n_lo=6, side='outside')
    if c.choice('moveouts', ['any', 'whole samples']) == 'whole samples':
        # decimal spacings and intervals, as in the field: moveouts of whole samples up to rounding
        g.dt = c.choice('decimal dt', [0.00025, 0.0005, 0.001, 0.002, 0.1])
        sp = c.choice('spacing', [0.1, 0.3, 0.5, 1.0, 2.0, 3.0])
        g.x = np.array([sp * i for i in range(g.m)])
        g.lo, g.hi = g.x[0], g.x[-1]
        g.sx = c.choice('source', [-5.0, 0.0, float(g.hi), float(g.hi) + 2.5])
        span = float(g.hi - g.lo)
        nv = c.size('nv', 1, 5)
        vel = [span / (g.dt * c.int(f'k{r}', 1, g.n - 2)) for r in range(nv)]
        vel = [round(v, 6) for v in vel]
    else:
        nv = c.size('nv', 1, 5)
        span = float(g.hi - g.lo)
        vel = [span / (g.dt * max(1, g.n - 3)) * c.real(f'q{r}', lo=1.05, hi=9) for r in range(nv)]
    arr = g.build(c)
    off, idx = near_to_far(c, g)
    o0 = off(0)
    slow = max((off(g.m - 1) - o0) / v / g.dt for v in vel)
    sure = g.n - math.floor(slow + 1e-6) - 1
    most = g.n - math.floor(slow - 1e-6) - 1
    c.assume(sure >= 1)
    vv = np.array(vel)
    o = c.call(klass('slantstack').slant_stack, arr, vv)
    c.check('accepted', o.ok)
    ss = o.value
    c.check('shape', ss.shape[0] == nv and sure <= ss.shape[1] <= most)

    def sample(i, t):
        """linear interpolation of trace i at t samples"""
        k = math.floor(t)
        if t - k > 1 - 1e-6:
            k += 1
        a = float(g.A[idx(i)][k])
        if k + 1 >= g.n:
            c.check('within the record', t - k < 1e-6)
            return a
        return a + (t - k) * (float(g.A[idx(i)][k + 1]) - a)
    mag = max(1.0, float(np.max(np.abs(g.A)))) * span
    for r in range(nv):
        for tau in range(ss.shape[1]):
            y = [sample(i, tau + (off(i) - o0) / vel[r] / g.dt) for i in range(g.m)]
            want = sum((y[i] + y[i + 1]) / 2 * (off(i + 1) - off(i)) for i in range(g.m - 1))
            c.check('integral along the moveout', abs(ss[r, tau] - want) <= 1e-6 * mag)
    c.check('unchanged', c.and_(same_array(c, g, arr), bool(np.all(vv == np.array(vel)))))


@contract('C20', [W + 'SlantStack.transform', W + 'SlantStack.slant_stack'], modes='C', trials=80)
def slant_transform(c):
    """its spectrum over intercept time, bin by bin"""
    g, arr = spectrum_array(c, n_lo=6)
    n, step, fmin, fmax = limits(c, g, arr)
    span = float(g.hi - g.lo)
    base = span / (g.dt * max(1, g.n - 3))
    vel = np.array([base * c.real(f'q{r}', lo=1.05, hi=9) for r in range(c.size('nv', 1, 3))])
    o = c.call(klass('slantstack').slant_stack, arr, vel)
    c.assume(o.ok)
    ss = o.value
    mult = arr.sensors[0].multiple
    k0 = c.argmin(n, lambda k: abs(k * step - fmin))
    k1 = c.argmin(n, lambda k: abs(k * step - fmax))
    o = c.call(klass('slantstack').transform, arr, vel, settings(c, fmin, fmax))
    c.check('accepted', o.ok)
    f, pw = o.value
    c.check('columns', pw.shape == (len(vel), len(range(k0, k1 + 1, mult))) and len(f) == pw.shape[1])
    spec = c.dft(len(vel), n, lambda r: np.concatenate([ss[r], np.zeros(n)])[:n])
    mag = max(1e-9, float(np.max(np.abs(ss)))) * n
    for j, k in enumerate(range(k0, k1 + 1, mult)):
        for r in range(len(vel)):
            c.check('spectrum of the slant stack', abs(pw[r, j] - spec(r, k)) <= 1e-8 * mag)


# ---------------------------------------------------------------------------
# C35
@contract('C35', ['swprocess.snr.SignaltoNoiseRatio.from_array1ds', AW + '_frequency_keep_ids', A + 'timeseriesmatrix'], trials=100, budget=120)
def snr_ratio(c):
    g = Geo(c, m_lo=1, n_lo=4)
    B = c.mat('noise', (g.m, g.n))
    sig = g.build(c)
    h = Geo.__new__(Geo)
    h.__dict__.update(g.__dict__)
    h.A = B
    noi = h.build(c)
    pad = c.choice('pad', [0, 1])
    N = c.int('N', 1, None if c.symbolic else 30, small=12)
    df = 1.0 / (N * g.dt)
    n0 = g.n
    if c.choice('padded before', [0, 1]) and not pad:
        c.assume(c.and_(c.call(sig.zero_pad, df).ok, c.call(noi.zero_pad, df).ok))
    if pad:
        one = ActiveTimeSeries(g.A[0], g.dt, nstacks=g.nstacks, delay=g.delay)
        c.assume(c.call(one.zero_pad, df).ok)
        n, mult = one.nsamples, one.multiple
    else:
        n, mult = sig.sensors[0].nsamples, sig.sensors[0].multiple
    step = 1.0 / (n * g.dt)
    fmin = c.real('fmin', lo=0, gen=lambda rng: step * rng.choice([0, 1, 2, rng.uniform(0, n / 2)]))
    fmax = c.real('fmax', lo=0, gen=lambda rng: max(fmin, step * rng.choice([n // 2, n - 1, 2 * n, rng.uniform(0, n)])))
    c.assume(fmin <= fmax)
    kw = dict(pad_snr=True, df_snr=df) if pad else {}
    o = c.call(SignaltoNoiseRatio.from_array1ds, sig, noi, fmin=fmin, fmax=fmax, **kw)
    c.check('accepted', o.ok)
    k0 = c.argmin(n, lambda k: abs(k * step - fmin))
    f, r = o.value.frequencies, o.value.snr
    S = c.dft(g.m, n, lambda i: c.at(sig.sensors, i).amplitude)
    Q = c.dft(g.m, n, lambda i: c.at(noi.sensors, i).amplitude)
    nf = c.len(r)
    c.check('padded as requested', c.and_(c.is_(sig.sensors[0].nsamples, n), c.is_(noi.sensors[0].nsamples, n)))
    c.check('as many ratios as frequencies', c.and_(c.is_(c.len(f), nf), nf >= 1))
    c.check('frequencies', c.forall(nf, lambda j: c.eq(c.at(f, j), (k0 + j * mult) * step)))

    def both(j):
        b = k0 + j * mult
        return c.sum(g.m, lambda i: abs(S(i, b))), c.sum(g.m, lambda i: abs(Q(i, b)))
    if not c.symbolic:
        mag = max(1e-9, float(np.max(np.abs(B))))
        c.assume(all(both(j)[1] > 1e-6 * mag for j in range(nf)))

    def ratio(j):
        s, q = both(j)
        return c.implies(c.not_(c.is_(q, 0.0)), lambda: c.eq(c.at(r, j) * q, s, scale=None if c.symbolic else q, tol=1e-7))
    c.check('ratio of mean magnitudes', c.forall(nf, ratio))


@contract('C35', ['swprocess.snr.SignaltoNoiseRatio.from_array1ds'], modes='C', trials=60)
def snr_unequal(c):
    g = Geo(c, m_lo=1, n_lo=4)
    h = Geo.__new__(Geo)
    h.__dict__.update(g.__dict__)
    h.n = g.n + c.choice('longer by', [1, 3, 7])
    h.A = c.mat('noise', (g.m, h.n))
    sig, noi = (g.build(c), h.build(c)) if c.choice('longer', ['noise', 'signal']) == 'noise' else (h.build(c), g.build(c))
    o = c.call(SignaltoNoiseRatio.from_array1ds, sig, noi, fmin=0.0, fmax=1 / g.dt)
    c.check('rejected without padding', not o.ok)
    # padding to a fine enough step makes them equal
    N = h.n + c.int('N', 0, 9)
    o = c.call(SignaltoNoiseRatio.from_array1ds, sig, noi, fmin=0.0, fmax=1 / g.dt, pad_snr=True, df_snr=1 / (N * g.dt))
    if N >= h.n and sig.sensors[0].nsamples == noi.sensors[0].nsamples:
        c.check('accepted with padding', o.ok)
    c.check('both padded', sig.sensors[0].nsamples % N == 0 and noi.sensors[0].nsamples % N == 0)
