"""C27, C28, C29 suite statistics and resolution limits; C31 matrix helpers; C36 inversion."""
from pydv.harness import contract
from contracts.common import *
from contracts.peaks import Pts, Many
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from swprocess.stats import Statistics
from swprocess import inversion

Q = 'swprocess.peakssuite.PeaksSuite.'
S = 'swprocess.stats.Statistics.'
INV = 'swprocess.inversion.'


# ---------------------------------------------------------------------------
# C27
def defined(c, x):
    return c.not_(c.isnan(x))


def sparse(c, name, m, n, **kw):
    """a matrix with missing values, whole rows and columns among them"""
    D = c.mat(name, (m, n), lo=10, hi=900, nan=True)
    return D


@contract('C27', [Q + '_drop_indices', S + '_drop_indices'], trials=200)
def thresholds(c):
    m, n = c.size('m', 0), c.size('n', 1)
    D = sparse(c, 'D', m, n)
    D0 = D.copy()
    f = c.choice('class', [PeaksSuite._drop_indices, Statistics._drop_indices])
    share = c.real('share', lo=0, hi=1, gen=lambda r: r.choice([0, 0.01, 0.25, 0.5, 1 / 3, 2 / 3, 0.8, 1, r.random()]))
    few = c.int('few', 0, None, small=5)
    o = c.call(f, D, drop_if_fewer_percent=share, drop_if_fewer_count=few)
    c.check('accepted', o.ok)
    R = o.value

    def dropped(i):
        k = c.count(n, lambda j: defined(c, c.at(D0, i, j)))
        return c.or_(k < few, k < share * n if not c.symbolic else k / n < share)
    # the fraction is compared in floating point: leave exact ties to it
    keep_exact = lambda i: abs(sum(1 for j in range(n) if D0[i, j] == D0[i, j]) - share * n) > 1e-9 or sum(1 for j in range(n) if D0[i, j] == D0[i, j]) / n == share
    if c.symbolic:
        L, sel = c.select(m, dropped)
        c.check('as many as below a threshold', c.is_(c.len(R), L))
        c.check('the rows below a threshold, in order', c.forall(L, lambda k: c.is_(c.at(R, k), sel(k))))
    else:
        L = c.len(R)
        c.check('only rows below a threshold', c.forall(L, lambda k: c.and_(c.at(R, k) >= 0, c.at(R, k) < m, dropped(c.at(R, k)) or not keep_exact(c.at(R, k)))))
        c.check('every row below a threshold', c.forall(m, lambda i: c.implies(c.and_(dropped(i), keep_exact(i)), lambda: c.exists(L, lambda k: c.is_(c.at(R, k), i)))))
        c.check('in order, once', c.forall(L, lambda k: c.implies(k > 0, lambda: c.at(R, k - 1) < c.at(R, k))))
    c.check('matrix as it was', c.forall(m, lambda i: c.forall(n, lambda j: c.is_(c.at(D, i, j), c.at(D0, i, j)))))


def drop_once(D, cols, few, share):
    """indices of the rows (or columns) of D that stay"""
    k = len(D[0]) if cols else len(D)
    L = (len(D) if cols else len(D[0])) if len(D) else 0
    keep = []
    for i in range(k):
        line = [r[i] for r in D] if cols else D[i]
        d = sum(1 for x in line if x == x)
        if not (d < few or d / len(line) < share):
            keep.append(i)
    return keep


def drop_model(D, how, cs, cf, rs):
    rows, cols = list(range(len(D))), list(range(len(D[0])))
    for step in how:
        sub = [[D[i][j] for j in cols] for i in rows]
        if not rows or not cols:
            continue
        if step == 'c':
            cols = [cols[k] for k in drop_once(sub, True, cf, cs)]
        else:
            rows = [rows[k] for k in drop_once(sub, False, 0, rs)]
    left = [D[i][j] for i in rows for j in cols]
    d = sum(1 for x in left if x == x)
    return rows, cols, len(left) - d, d


@contract('C27', [Q + '_drop', S + '_drop'], modes='C', trials=300)
def drop_orders(c):
    m, n = c.size('m', 1, 7), c.size('n', 1, 7)
    D = sparse(c, 'D', m, n)
    for k in range(c.int('gaps', 0, m * n)):
        D[c.int(f'gi{k}', 0, m - 1), c.int(f'gj{k}', 0, n - 1)] = np.nan
    xx = c.increasing('xx', n, lo=1.0)
    f = c.choice('class', [PeaksSuite._drop, Statistics._drop])
    g = lambda r: r.choice([0, 0.01, 0.25, 0.4, 0.5, 1 / 3, 2 / 3, 0.8, 1, r.random()])
    rs, cs = c.real('rows', gen=g), c.real('columns', gen=g)
    cf = c.int('few', 0, 5)
    D0, X0 = D.tolist(), xx.tolist()
    o = c.call(f, xx, D, drop_observation_if_fewer_percent=rs, drop_sample_if_fewer_percent=cs, drop_sample_if_fewer_count=cf)
    c.check('accepted', o.ok)
    x, R = o.value
    c.check('arguments as they were', bool(np.array_equal(D, np.array(D0), equal_nan=True)) and xx.tolist() == X0)
    i_def = sum(1 for r in D0 for v in r if v == v)
    i_nan = m * n - i_def
    opts = []
    for how in ('cr', 'rc'):
        rows, cols, r_nan, r_def = drop_model(D0, how, cs, cf, rs)
        opts.append(((i_nan - r_nan) / (i_def - r_def + 1), rows, cols))

    def shows(rows, cols):
        return x.tolist() == [X0[j] for j in cols] and R.shape == (len(rows), len(cols)) and np.array_equal(
            R, np.array([[D0[i][j] for j in cols] for i in rows]).reshape(len(rows), len(cols)), equal_nan=True)
    c.check('samples stay paired with their columns', R.ndim == 2 and R.shape[1] == len(x))
    c.check('one of the two orders', any(shows(r, k) for _, r, k in opts))
    a, b = opts[0][0], opts[1][0]
    if abs(a - b) > 1e-9:
        best = opts[0] if a > b else opts[1]
        c.check('the one losing fewer defined values per undefined one removed', shows(*best[1:]))


# ---------------------------------------------------------------------------
# C28
class Curves:
    """a suite of single-valued curves"""

    def __init__(self, c, lo=1, hi=6):
        self.k = c.size('members', lo, hi)
        self.f, self.v = [], []
        for q in range(self.k):
            n = c.size(f'n{q}', 2, 7)
            f = c.increasing(f'f{q}', n, lo=c.real(f'start{q}', lo=0.5, hi=10.0), step_lo=0.25, step_hi=4.0)
            v = c.vec(f'v{q}', n, lo=60, hi=900)
            o = c.order(f'order{q}', n)
            self.f.append(np.array([f[i] for i in o], dtype=float))
            self.v.append(np.array([v[i] for i in o], dtype=float))
        self.off = []
        for q in range(self.k):
            self.off.append(c.int(f'rejected{q}', 0, len(self.f[q]) - 2) if c.choice(f'some{q}', [0, 0, 1]) else 0)

    def build(self, c):
        S = None
        for q in range(self.k):
            p = Peaks(self.f[q].copy(), self.v[q].copy(), identifier=f'm{q}')
            for i in range(self.off[q]):
                p._valid[i] = False
            if S is None:
                S = PeaksSuite(p)
            else:
                S.append(p)
        return S

    def curve(self, q, xt, yt):
        out = []
        for i in range(self.off[q], len(self.f[q])):
            f, v = float(self.f[q][i]), float(self.v[q][i])
            d = dict(frequency=f, velocity=v, wavelength=v / f, slowness=1 / v)
            out.append((d[xt], d[yt]))
        return sorted(out)

    def want(self, q, xt, yt, x):
        """value of member q's piecewise-linear curve, None where undefined, 'any' on its ends"""
        p = self.curve(q, xt, yt)
        e = 1e-9 * max(1.0, abs(x))
        if abs(x - p[0][0]) <= e:
            return p[0][1], True
        if abs(x - p[-1][0]) <= e:
            return p[-1][1], True
        if x < p[0][0] or x > p[-1][0]:
            return None, False
        for (x0, y0), (x1, y1) in zip(p, p[1:]):
            if x0 <= x <= x1:
                return y0 + (y1 - y0) * (x - x0) / (x1 - x0), False

    def distinct(self, xt, yt):
        return all(b[0] - a[0] > 1e-3 * max(1e-3, abs(a[0])) for q in range(self.k) for a, b in [
            z for z in zip(self.curve(q, xt, yt), self.curve(q, xt, yt)[1:])])


AXES = [('frequency', 'velocity'), ('wavelength', 'velocity'), ('frequency', 'slowness'), ('velocity', 'frequency'), ('frequency', 'frequency')]


def resample_points(c, C, xt, yt):
    pts = [p[0] for q in range(C.k) for p in C.curve(q, xt, yt)]
    lo, hi = min(pts), max(pts)
    n = c.size('points', 1, 8)
    return sorted(c.real(f'at{i}', gen=lambda r: float(r.choice([r.choice(pts), r.uniform(lo, hi), lo - 1, hi + 1, r.uniform(lo, hi)]))) for i in range(n))


def row_ok(C, q, xt, yt, x, got):
    w, end = C.want(q, xt, yt, x)
    if end and got != got:
        # a point on the very end may fall outside by rounding
        p = C.curve(q, xt, yt)
        return x not in (p[0][0], p[-1][0])
    if w is None:
        return got != got
    return got == got and abs(got - w) <= 1e-7 * max(1.0, abs(w)) + (1e-3 * abs(w) if end else 0)


@contract('C28', [Q + 'to_array', 'swprocess.peaks.Peaks.simplify_mpeaks'], modes='C', trials=200)
def resample(c):
    C = Curves(c)
    xt, yt = c.choice('axes', AXES)
    c.assume(C.distinct(xt, yt))
    S = C.build(c)
    xx = resample_points(c, C, xt, yt)
    o = c.call(S.to_array, xt, yt, list(xx) if c.choice('as', [0, 1]) else np.array(xx))
    c.check('accepted', o.ok)
    x, R = o.value
    c.check('points as requested', list(x) == xx)
    c.check('one row per member', R.shape == (C.k, len(xx)))
    c.check('each member in its own row', all(row_ok(C, q, xt, yt, xx[j], R[q, j]) for q in range(C.k) for j in range(len(xx))))
    c.check('suite as it was', all(np.array_equal(S[q]._velocity, C.v[q]) and np.array_equal(S[q]._frequency, C.f[q]) for q in range(C.k)))


@contract('C28', [Q + 'statistics', Q + 'to_array', Q + '_drop', Q + '_drop_indices'], modes='C', trials=200)
def summary(c):
    C = Curves(c, lo=1)
    xt, yt = c.choice('axes', AXES[:3])
    c.assume(C.distinct(xt, yt))
    S = C.build(c)
    xx = sorted(set(resample_points(c, C, xt, yt)))
    few = c.int('few', 1, 4)
    sub = bool(c.choice('substitute', [0, 1]))
    kw = {} if few == 3 else dict(drop_sample_if_fewer_count=few)
    o = c.call(S.statistics, xt, yt, np.array(xx), mean_substitution=sub, **kw)
    if C.k < 3:
        c.check('fewer than three members are rejected', not o.ok and isinstance(o.exc, ValueError))
        return
    c.check('accepted', o.ok)
    x, mean, std, corr = o.value
    rows = []
    for q in range(C.k):
        rows.append([])
        for t in xx:
            w, end = C.want(q, xt, yt, t)
            if end:
                # member's own end: defined or not by rounding
                p = C.curve(q, xt, yt)
                c.assume(t in (p[0][0], p[-1][0]))
            rows[-1].append(float('nan') if w is None else w)
    i_def = sum(1 for r in rows for v in r if v == v)
    i_nan = len(rows) * len(xx) - i_def
    good = []
    for how in ('cr', 'rc'):
        rr, cc, r_nan, r_def = drop_model(rows, how, 0.01, few, 0.01)
        good.append(((i_nan - r_nan) / (i_def - r_def + 1), rr, cc))
    c.assume(abs(good[0][0] - good[1][0]) > 1e-9 or good[0][1:] == good[1][1:])
    _, rr, cc = max(good, key=lambda t: t[0])
    c.check('retained points', list(x) == [xx[j] for j in cc])
    c.check('one mean and deviation per retained point', len(mean) == len(cc) and len(std) == len(cc))
    for k, j in enumerate(cc):
        v = [rows[i][j] for i in rr if rows[i][j] == rows[i][j]]
        mu = sum(v) / len(v)
        c.check('mean of the defined values', abs(mean[k] - mu) <= 1e-6 * max(1, abs(mu)))
        if len(v) > 1:
            sd = (sum((t - mu) ** 2 for t in v) / (len(v) - 1)) ** 0.5
            c.check('deviation of the defined values', abs(std[k] - sd) <= 1e-6 * max(1.0, abs(mu)))
    c.check('no correlation unless asked', corr is None)


# ---------------------------------------------------------------------------
# C29
@contract('C29', [Q + 'calc_resolution_limits'], trials=300)
def resolution(c):
    n = c.size('n')
    xs, ys = c.vec('xs', n, lo=0.125, hi=900), c.vec('ys', n, lo=0.125, hi=900)
    X0, Y0 = xs.copy(), ys.copy()
    xt = c.choice('xtype', ['frequency', 'wavelength', 'velocity'])
    yt = c.choice('ytype', ['velocity', 'slowness', 'wavenumber', 'frequency'])
    at = c.choice('attribute', ['wavelength', 'wavenumber', 'velocity'])
    lim = (c.real('first', lo=0, hi=500, open_lo=True), c.real('second', lo=0, hi=500, open_lo=True))
    o = c.call(PeaksSuite.calc_resolution_limits, xt, at, yt, lim, xs, ys)
    if xt == 'velocity' or yt == 'frequency' or at == 'velocity' or (xt == 'wavelength' and yt == 'wavenumber'):
        c.check('unsupported combinations are rejected', c.and_(not o.ok, o.exc is not None and isinstance(o.exc, NotImplementedError)))
        return
    c.check('accepted', o.ok)
    pi = c.pi
    for k in (0, 1):
        x, y = o.value[k]
        c.check(f'curve {k} lists pairs', c.and_(c.is_(c.len(x), n), c.is_(c.len(y), n)))

        def on_limit(i):
            a, b = c.at(x, i), c.at(y, i)
            # each converted to (wavelength or wavenumber) * denominator == limit * denominator
            if xt == 'wavelength':
                num, den = a, 1
            elif yt == 'velocity':
                num, den = b, a
            elif yt == 'slowness':
                num, den = 1, a * b
            else:
                num, den = 2 * pi, b
            pos = den > 0 if xt == 'frequency' else True
            if at == 'wavelength':
                return c.and_(pos, c.eq(num, lim[k] * den, scale=1e-3))
            return c.and_(pos, c.eq(2 * pi * den, lim[k] * num, scale=1e-3))
        c.check(f'curve {k} is on its own limit', c.forall(n, on_limit))
        given, got = (X0, x) if xt == 'frequency' else (Y0, y)
        c.check(f'curve {k} is drawn at the given positions', c.forall(n, lambda i: c.eq(c.at(got, i), c.at(given, i))))
    c.check('positions as they were', c.forall(n, lambda i: c.and_(c.is_(c.at(xs, i), c.at(X0, i)), c.is_(c.at(ys, i), c.at(Y0, i)))))


# ---------------------------------------------------------------------------
# C31
@contract('C31', [S + '_sort'], modes='C', trials=300)
def sorting(c):
    m, n = c.size('m', 1, 8), c.size('n', 1, 6)
    D = sparse(c, 'D', m, n)
    for k in range(c.int('gaps', 0, m * n)):
        D[c.int(f'gi{k}', 0, m - 1), c.int(f'gj{k}', 0, n - 1)] = np.nan
    D0 = [[repr(float(v)) for v in r] for r in D]
    o = c.call(Statistics._sort, D)
    c.check('accepted', o.ok)
    R = o.value
    c.check('shape', R.shape == (m, n))
    rows = [[repr(float(v)) for v in r] for r in R]
    c.check('whole rows, permuted', sorted(rows) == sorted(D0))
    first = [next((j for j, v in enumerate(r) if v != 'nan'), n) for r in rows]
    c.check('ordered by first defined sample', first == sorted(first))


@contract('C31', [S + '_fill_data'], trials=200)
def filling(c):
    m, n = c.size('m', 1), c.size('n', 1)
    D = sparse(c, 'D', m, n)
    D0 = D.copy()
    means, devs = c.vec('means', n, lo=1, hi=100), c.vec('devs', n, lo=0, hi=10)
    rng = np.random.default_rng(c.int('seed', 0, 999)) if not c.symbolic else Draws(c)
    o = c.call(Statistics._fill_data, D, means=means, stddevs=devs, rng=rng)
    c.check('accepted', o.ok)
    R = o.value
    c.check('shape', c.and_(c.is_(R.shape[0], m), c.is_(R.shape[1], n)))
    c.check('defined values stay', c.forall(m, lambda i: c.forall(n, lambda j: c.implies(defined(c, c.at(D0, i, j)), lambda: c.is_(c.at(R, i, j), c.at(D0, i, j))))))
    c.check('every gap is filled', c.forall(m, lambda i: c.forall(n, lambda j: defined(c, c.at(R, i, j)))))


class Draws:
    """any generator at all"""
    def __init__(self, c):
        self.normal = c.arbitrary('draw')


@contract('C31', [S + '_fill_data'], trials=60)
def filling_default(c):
    """means and deviations are the column's own when none are given"""
    m, n = c.size('m', 3, 6), c.size('n', 1, 5)
    D = sparse(c, 'D', m, n)
    if not c.symbolic:
        c.assume(bool((np.sum(~np.isnan(D), axis=0) >= 2).all()))
    D0 = D.copy()
    o = c.call(Statistics._fill_data, D, rng=Draws(c)) if c.symbolic else c.call(Statistics._fill_data, D)
    c.check('accepted', o.ok)
    R = o.value
    c.check('shape', c.and_(c.is_(R.shape[0], m), c.is_(R.shape[1], n)))
    c.check('defined values stay', c.forall(m, lambda i: c.forall(n, lambda j: c.implies(defined(c, c.at(D0, i, j)), lambda: c.is_(c.at(R, i, j), c.at(D0, i, j))))))
    c.check('every gap is filled', c.forall(m, lambda i: c.forall(n, lambda j: defined(c, c.at(R, i, j)))))


@contract('C31', [S + '_calc_density'], trials=200)
def density(c):
    m, n = c.size('m', 1), c.size('n', 1)
    D = sparse(c, 'D', m, n)
    b_r, b_c = c.int('top', 0, None if c.symbolic else m - 1), c.int('left', 0, None if c.symbolic else n - 1)
    h, w = c.int('down', 0, None if c.symbolic else m - 1 - b_r), c.int('right', 0, None if c.symbolic else n - 1 - b_c)
    c.assume(c.and_(b_r + h < m, b_c + w < n))
    o = c.call(Statistics._calc_density, D, (b_r, b_c), (b_r + h, b_c + w))
    c.check('accepted', o.ok)
    k = c.sum(h + 1, lambda i: c.count(w + 1, lambda j: defined(c, c.at(D, b_r + i, b_c + j))))
    c.check('defined over possible', c.eq(o.value * ((h + 1) * (w + 1)), k))


# ---------------------------------------------------------------------------
# C36
def rectangle(c, n, m, *names):
    return


@contract('C36', [INV + 'leastsquare_iterativealgorithm'], modes='C', trials=150)
def update(c):
    P, D = c.size('p', 1, 4), c.size('d', 1, 4)
    vector = c.choice('as', ['vector', 'column'])
    sh = lambda k: (k,) if vector == 'vector' else (k, 1)
    p0, pm, d0, dm = (c.mat(k, sh(z), lo=-5, hi=5) for k, z in [('p0', P), ('pm', P), ('d0', D), ('dm', D)])
    G, Cp, Cd = c.mat('G', (D, P), lo=-3, hi=3), spd(c, 'Cp', P), spd(c, 'Cd', D)
    args = (p0, pm, Cp, d0, dm, Cd, G)
    before = [a.copy() for a in args]
    o = c.call(inversion.leastsquare_iterativealgorithm, *args)
    c.check('accepted', o.ok)
    K = gain(Cp, Cd, G)
    v = lambda a: [float(t) for t in a.ravel()]
    r = [d - e + sum(G[i, j] * (q - s) for j, (q, s) in enumerate(zip(v(pm), v(p0)))) for i, (d, e) in enumerate(zip(v(d0), v(dm)))]
    want = [v(p0)[i] + sum(K[i][j] * r[j] for j in range(D)) for i in range(P)]
    c.check('shape', o.value.shape == p0.shape)
    c.check('Bayesian update', all(abs(a - b) <= 1e-6 * (1 + abs(b)) for a, b in zip(v(o.value), want)))
    c.check('arguments as they were', all(np.array_equal(a, b) for a, b in zip(args, before)))


def spd(c, name, n):
    """any covariance matrix (symmetric positive definite)"""
    L = c.mat(name, (n, n), lo=-2, hi=2)
    return L @ L.T + np.eye(n)


def gain(Cp, Cd, G):
    from fractions import Fraction as F
    Cp, Cd, G = ([[F(float(t)) for t in r] for r in M] for M in (Cp, Cd, G))
    mul = lambda A, B: [[sum(a * B[k][j] for k, a in enumerate(r)) for j in range(len(B[0]))] for r in A]
    T = lambda A: [list(r) for r in zip(*A)]
    S_ = [[x + y for x, y in zip(r, s)] for r, s in zip(Cd, mul(mul(G, Cp), T(G)))]
    return [[float(x) for x in r] for r in mul(mul(Cp, T(G)), inverse(S_))]


def inverse(A):
    n = len(A)
    M = [list(r) + [type(r[0])(i == j) for j in range(n)] for i, r in enumerate(A)]
    for k in range(n):
        p = next(i for i in range(k, n) if M[i][k] != 0)
        M[k], M[p] = M[p], M[k]
        M[k] = [x / M[k][k] for x in M[k]]
        for i in range(n):
            if i != k:
                M[i] = [x - M[i][k] * y for x, y in zip(M[i], M[k])]
    return [r[n:] for r in M]


@contract('C36', [INV + 'leastsquare_posterioricovmatrix'], modes='C', trials=150)
def posterior(c):
    P, D = c.size('p', 1, 4), c.size('d', 1, 4)
    G, Cp, Cd = c.mat('G', (D, P), lo=-3, hi=3), spd(c, 'Cp', P), spd(c, 'Cd', D)
    args = (Cp, Cd, G)
    before = [a.copy() for a in args]
    o = c.call(inversion.leastsquare_posterioricovmatrix, *args)
    c.check('accepted', o.ok)
    K = gain(Cp, Cd, G)
    GC = [[sum(float(G[i, k]) * float(Cp[k, j]) for k in range(P)) for j in range(P)] for i in range(D)]
    want = [[float(Cp[i, j]) - sum(K[i][k] * GC[k][j] for k in range(D)) for j in range(P)] for i in range(P)]
    c.check('shape', o.value.shape == (P, P))
    c.check('posterior covariance', all(abs(o.value[i, j] - want[i][j]) <= 1e-6 * (1 + abs(want[i][j])) for i in range(P) for j in range(P)))
    c.check('arguments as they were', all(np.array_equal(a, b) for a, b in zip(args, before)))
