"""C21-C26, C33, C34: peak sets and suites."""
import copy
import json
import os
from unittest import mock
from pydv.harness import contract
from contracts.common import *
from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite

P = 'swprocess.peaks.Peaks.'
Q = 'swprocess.peakssuite.PeaksSuite.'
EXTRA = ['azimuth', 'ellipticity', 'noise', 'power']
ATTRS = ['frequency', 'velocity'] + EXTRA + ['wavelength', 'slowness', 'wavenumber']


class Pts:
    """An arbitrary peak set: stored arrays of one or two dimensions."""

    def __init__(self, c, tag='', shape=None, extra=EXTRA, nan=True, ident='p', n_lo=1, fhi=60, distinct=None):
        if shape is None:
            if c.choice('dimensions' + tag, [1, 2]) == 1:
                shape = (c.size('n' + tag, n_lo),)
            else:
                shape = (c.size('nr' + tag, 1, 4), c.size('nc' + tag, 1, 6))
        self.shape = shape
        sym = c.symbolic
        self.d = {'frequency': c.mat('f' + tag, shape, lo=0.125, hi=None if sym else fhi),
                  'velocity': c.mat('v' + tag, shape, lo=0.125 if sym else 50, hi=None if sym else 900, nan=nan)}
        for k in extra:
            self.d[k] = c.mat(k[0] + k[1] + tag, shape) if sym else c.mat(k[0] + k[1] + tag, shape, lo=-90, hi=90)
        self.extra = list(extra)
        self.ident = ident

    def build(self, c):
        kw = {k: self.d[k].copy() for k in self.extra}
        return Peaks(self.d['frequency'].copy(), self.d['velocity'].copy(), identifier=self.ident, **kw)

    def val(self, c, attr, *ix):
        if attr in self.d:
            return c.at(self.d[attr], *ix)
        f, v = c.at(self.d['frequency'], *ix), c.at(self.d['velocity'], *ix)
        if attr == 'wavelength':
            return v / f
        if attr == 'slowness':
            return 1 / v
        return 2 * c.pi * f / v

    def attrs(self):
        return list(self.d) + ['wavelength', 'slowness', 'wavenumber']

    def each(self, c, fn):
        if len(self.shape) == 1:
            return c.forall(self.shape[0], lambda i: fn(i))
        return c.forall(self.shape[0], lambda i: c.forall(self.shape[1], lambda j: fn(i, j)))

    def defined(self, c, *ix):
        return c.not_(c.isnan(c.at(self.d['velocity'], *ix)))

    def indices(self):
        if len(self.shape) == 1:
            return [(i,) for i in range(self.shape[0])]
        return [(i, j) for i in range(self.shape[0]) for j in range(self.shape[1])]

    def check(self, c, p, keep, what='exactly the kept points'):
        """p lists exactly the points for which keep(*ix) holds, in order, with their stored values"""
        if c.symbolic:
            c.check(what, self.each(c, lambda *ix: c.is_(c.truth(c.at(p._valid, *ix)), keep(*ix))))
            c.check(what + ': stored values', self.each(c, lambda *ix: c.and_(*[
                c.is_(c.at(getattr(p, '_' + k), *ix), self.val(c, k, *ix)) for k in self.d])))
            return
        ix = [i for i in self.indices() if keep(*i)]
        for k in self.attrs():
            got = np.array(getattr(p, k)).flatten().tolist()
            want = [float(self.val(c, k, *i)) for i in ix]
            c.check(what, len(got) == len(want) and all(c.eq(a, b, tol=1e-12) if b == b else a != a for a, b in zip(got, want)))
        # what is stored, hidden points included
        p.to_json('stored.json')
        d = json.load(open('stored.json'))[p.identifier]
        for k in self.d:
            got, want = np.array(d[k], dtype=float), self.d[k]
            c.check(what + ': stored values', got.shape == want.shape and bool(np.all((got == want) | (np.isnan(got) & np.isnan(want)))))


def limit_pair(c, s, attr, tag=''):
    def gen(rng):
        v = [float(s.val(c, attr, *i)) for i in s.indices()]
        v = [x for x in v if x == x] or [1.0]
        a = rng.choice([rng.choice(v), rng.uniform(min(v) - 1, max(v) + 1)])
        return a
    kind = c.choice('limits' + tag, ['both', 'lower', 'upper', 'none'])
    lo = c.real('lo' + tag, gen=gen) if kind in ('both', 'lower') else None
    hi = c.real('hi' + tag, gen=gen) if kind in ('both', 'upper') else None
    return lo, hi


def outside(c, x, lo, hi):
    cs = []
    if lo is not None:
        cs.append(x < lo)
    if hi is not None:
        cs.append(x > hi)
    return c.or_(*cs) if cs else False


# ---------------------------------------------------------------------------
# C21
@contract('C21', [P + 'reject_limits_outside', P + '_reject', P + '__init__'], trials=300)
def limits(c):
    s = Pts(c)
    p = s.build(c)
    attr = c.choice('attr', ATTRS)
    lo, hi = limit_pair(c, s, attr)
    o = c.call(p.reject_limits_outside, attr, (lo, hi))
    c.check('accepted', o.ok)
    s.check(c, p, lambda *ix: c.and_(s.defined(c, *ix), c.not_(outside(c, s.val(c, attr, *ix), lo, hi))))


@contract('C21', [P + 'reject_limits_outside', P + '_reject'], trials=300)
def limits_again(c):
    s = Pts(c)
    p = s.build(c)
    K = 2 if c.symbolic else c.int('K', 2, 4)
    done = []
    for k in range(K):
        attr = c.choice(f'attr{k}', ATTRS) if not c.symbolic else 'velocity' if k else c.choice('attr0', ['frequency', 'wavelength'])
        lo, hi = limit_pair(c, s, attr, str(k))
        c.check('accepted', c.call(p.reject_limits_outside, attr, [lo, hi] if not c.symbolic and c.choice(f'as{k}', [0, 1]) else (lo, hi)).ok)
        done.append((attr, lo, hi))

    def keep(*ix):
        return c.and_(s.defined(c, *ix), *[c.not_(outside(c, s.val(c, a, *ix), lo, hi)) for a, lo, hi in done])
    s.check(c, p, keep)


class Many:
    """members of a suite, with shapes of their own"""

    def __init__(self, c, m_lo=1, extra=EXTRA, nan=True, hi=4):
        if c.symbolic:
            self.m = c.size('m', m_lo)
            self.n = c.size('n')
            self.F, self.V = c.mat('F', (self.m, self.n), lo=0.125), c.mat('V', (self.m, self.n), lo=1, nan=nan)
        else:
            self.m = c.size('m', m_lo, hi)
            self.s = [Pts(c, f'_{k}', extra=extra, ident=f'id{k}', nan=nan) for k in range(self.m)]

    def build(self, c):
        if c.symbolic:
            ps = c.family(self.m, lambda i: Peaks(self.F[i], self.V[i], identifier=i))
            S = PeaksSuite(ps[0])
            S.peaks, S.ids = ps, c.family(self.m, lambda i: ps[i].identifier)
            return S
        return PeaksSuite.from_peaks([s.build(c) for s in self.s])


@contract('C21', [Q + 'reject_limits_outside', P + 'reject_limits_outside'], trials=120)
def limits_suite(c):
    M = Many(c)
    S = M.build(c)
    if c.symbolic:
        attr = c.choice('attr', ['frequency', 'velocity', 'wavelength'])
        lo, hi = c.real('lo'), c.real('hi')
        o = c.call(S.reject_limits_outside, attr, (lo, hi))
        c.check('accepted', o.ok)

        def val(i, j):
            f, v = c.at(M.F, i, j), c.at(M.V, i, j)
            return {'frequency': f, 'velocity': v}.get(attr) if attr != 'wavelength' else v / f
        c.check('every member', c.forall(M.m, lambda i: c.forall(M.n, lambda j: c.is_(
            c.truth(c.at(c.at(S.peaks, i)._valid, j)),
            c.and_(c.not_(c.isnan(c.at(M.V, i, j))), c.not_(outside(c, val(i, j), lo, hi)))))))
        return
    attr = c.choice('attr', ATTRS)
    k = c.int('reference', 0, M.m - 1)
    lo, hi = limit_pair(c, M.s[k], attr)
    c.check('accepted', c.call(S.reject_limits_outside, attr, (lo, hi)).ok)
    c.check('members', len(S) == M.m)
    for i, s in enumerate(M.s):
        s.check(c, S[i], lambda *ix: s.defined(c, *ix) and not outside(c, s.val(c, attr, *ix), lo, hi))


# ---------------------------------------------------------------------------
# C22
def box_side(c, s, attr, tag):
    def gen(rng):
        v = [float(s.val(c, attr, *i)) for i in s.indices()]
        v = [x for x in v if x == x] or [1.0]
        return rng.choice([rng.choice(v), rng.uniform(min(v) - 1, max(v) + 1)])
    return c.real(tag + '0', gen=gen), c.real(tag + '1', gen=gen)


def between(c, x, a, b):
    return c.or_(c.and_(x > a, x < b), c.and_(x > b, x < a))


@contract('C22', [P + 'reject_box_inside', P + '_reject_box_inside_bool_array', P + '_reject'], trials=400)
def box(c):
    s = Pts(c)
    p = s.build(c)
    few = ['frequency', 'velocity', 'wavelength'] if c.symbolic else ATTRS
    K = 1 if c.symbolic else c.int('K', 1, 3)
    done = []
    for k in range(K):
        xa, ya = c.choice(f'x attr{k}', few), c.choice(f'y attr{k}', few)
        xl, yl = box_side(c, s, xa, f'x{k}'), box_side(c, s, ya, f'y{k}')
        o = c.call(p.reject_box_inside, xa, xl, ya, yl)
        c.check('accepted', o.ok)
        done.append((xa, xl, ya, yl))

    def keep(*ix):
        return c.and_(s.defined(c, *ix), *[c.not_(c.and_(between(c, s.val(c, xa, *ix), *xl), between(c, s.val(c, ya, *ix), *yl)))
                                            for xa, xl, ya, yl in done])
    s.check(c, p, keep)


@contract('C22', [P + 'reject_box_inside', P + 'reject_limits_outside'], trials=150)
def box_after_limits(c):
    s = Pts(c)
    p = s.build(c)
    few = ['frequency', 'velocity'] if c.symbolic else ATTRS
    at = c.choice('attr', few)
    lo, hi = limit_pair(c, s, at)
    c.call(p.reject_limits_outside, at, (lo, hi))
    xa, ya = c.choice('x attr', few), c.choice('y attr', few)
    xl, yl = box_side(c, s, xa, 'x'), box_side(c, s, ya, 'y')
    c.check('accepted', c.call(p.reject_box_inside, xa, xl, ya, yl).ok)
    s.check(c, p, lambda *ix: c.and_(s.defined(c, *ix), c.not_(outside(c, s.val(c, at, *ix), lo, hi)),
                                     c.not_(c.and_(between(c, s.val(c, xa, *ix), *xl), between(c, s.val(c, ya, *ix), *yl)))))


@contract('C22', [Q + 'reject_box_inside', P + 'reject_box_inside'], trials=120)
def box_suite(c):
    M = Many(c)
    S = M.build(c)
    if c.symbolic:
        xl, yl = (c.real('x0'), c.real('x1')), (c.real('y0'), c.real('y1'))
        o = c.call(S.reject_box_inside, 'frequency', xl, 'velocity', yl)
        c.check('accepted', o.ok)
        c.check('every member', c.forall(M.m, lambda i: c.forall(M.n, lambda j: c.is_(
            c.truth(c.at(c.at(S.peaks, i)._valid, j)),
            c.and_(c.not_(c.isnan(c.at(M.V, i, j))), c.not_(c.and_(between(c, c.at(M.F, i, j), *xl), between(c, c.at(M.V, i, j), *yl))))))))
        return
    xa, ya = c.choice('x attr', ATTRS), c.choice('y attr', ATTRS)
    k = c.int('reference', 0, M.m - 1)
    xl, yl = box_side(c, M.s[k], xa, 'x'), box_side(c, M.s[k], ya, 'y')
    c.check('accepted', c.call(S.reject_box_inside, xa, xl, ya, yl).ok)
    for i, s in enumerate(M.s):
        s.check(c, S[i], lambda *ix: s.defined(c, *ix) and not (between(c, s.val(c, xa, *ix), *xl) and between(c, s.val(c, ya, *ix), *yl)))


# ---------------------------------------------------------------------------
# C23
@contract('C23', [P + 'simplify_mpeaks'], trials=300)
def simplify(c):
    extra = c.choice('stored', [['power'], []] if c.symbolic else [EXTRA, ['azimuth', 'power'], ['azimuth'], []])
    nr, nc = c.size('nr', 1, 5), c.size('nc', 1, 6)
    s = Pts(c, shape=(nr, nc), extra=extra)
    p = s.build(c)
    if not c.symbolic and c.choice('reject', [0, 1]):
        at = c.choice('reject attr', list(s.d))
        lo, hi = limit_pair(c, s, at)
        c.call(p.reject_limits_outside, at, (lo, hi))
    else:
        at, lo, hi = 'frequency', None, None

    def valid(i, j):
        return c.and_(s.defined(c, i, j), c.not_(outside(c, s.val(c, at, i, j), lo, hi)))
    attr = c.choice('attr', [a for a in ATTRS if a in s.attrs()] if not c.symbolic else ['frequency', 'velocity', 'wavelength'])
    by = 'power' if 'power' in extra else 'frequency'
    o = c.call(p.simplify_mpeaks, attr)
    c.check('accepted', o.ok)
    got = o.value
    if c.symbolic:
        # entries in column order, one per column with a valid entry
        def rows(j):
            return c.select(nr, lambda i: valid(i, j))
        m, sel = c.select(nc, lambda j: rows(j)[0] >= 1)
        c.check('one per column with a valid entry', c.is_(c.len(got), m))

        def strongest(q):
            j = sel(q)
            n, row = rows(j)
            i = row(c.largest(n, lambda k: s.val(c, by, row(k), j)))
            return c.and_(valid(i, j), lambda: c.is_(c.at(got, q), s.val(c, attr, i, j)))
        c.check('attribute at the strongest valid entry', c.forall(m, strongest))
        return
    want = []
    for j in range(nc):
        rows = [i for i in range(nr) if valid(i, j)]
        if rows:
            want.append(float(s.val(c, attr, max(rows, key=lambda i: float(s.val(c, by, i, j))), j)))
    got = [float(v) for v in got]
    c.check('strongest valid entry per column', len(got) == len(want) and all(c.eq(a, b, tol=1e-12) for a, b in zip(got, want)))
    s.check(c, p, valid, 'set unchanged')


@contract('C23', [P + 'simplify_mpeaks'], trials=100)
def simplify_single(c):
    s = Pts(c, shape=(c.size('n'),), extra=['power'] if c.symbolic else EXTRA)
    p = s.build(c)
    attr = c.choice('attr', [a for a in ATTRS if a in s.attrs()] if not c.symbolic else ['frequency', 'velocity'])
    o = c.call(p.simplify_mpeaks, attr)
    c.check('accepted', o.ok)
    got, same = o.value, getattr(p, attr)
    c.check('its valid values', c.and_(c.is_(c.len(got), c.len(same)), lambda: c.forall(c.len(got), lambda i: c.is_(c.at(got, i), c.at(same, i)))))
    s.check(c, p, lambda *ix: s.defined(c, *ix), 'set unchanged')


# ---------------------------------------------------------------------------
# C24
@contract('C24', [P + a for a in ATTRS] + [P + '__init__'], trials=200)
def derived(c):
    if c.symbolic:
        # any rejection history amounts to some mask of the points
        s = Pts(c, shape=(c.size('n'),))
        p = s.build(c)
        c.check('rejected', c.call(p._reject, c.vec('B', s.shape[0], kind='b')).ok)
    else:
        s = Pts(c)
        p = s.build(c)
    if not c.symbolic:
        at = c.choice('reject attr', ATTRS)
        lo, hi = limit_pair(c, s, at)
        c.call(p.reject_limits_outside, at, (lo, hi))
    else:
        n = c.len(p.frequency)

        def valid(j):
            return c.truth(c.at(p._valid, j))
        c.check('only defined points', c.forall(s.shape[0], lambda j: c.implies(valid(j), s.defined(c, j))))
        m, sel = c.select(s.shape[0], valid)
        for a in ATTRS:
            got = getattr(p, a)
            c.check(a + ' lists the valid points', c.and_(c.is_(c.len(got), m), c.forall(m, lambda i: c.is_(c.at(got, i), s.val(c, a, sel(i))))))
        c.check('wavelength', c.forall(n, lambda i: c.is_(c.at(p.wavelength, i) * c.at(p.frequency, i), c.at(p.velocity, i))))
        c.check('slowness', c.forall(n, lambda i: c.is_(c.at(p.slowness, i) * c.at(p.velocity, i), 1.0)))
        c.check('wavenumber', c.forall(n, lambda i: c.is_(c.at(p.wavenumber, i) * c.at(p.velocity, i), 2 * c.pi * c.at(p.frequency, i))))
        c.check('defined', c.forall(n, lambda i: c.not_(c.isnan(c.at(p.velocity, i)))))
        return
    s.check(c, p, lambda *ix: s.defined(c, *ix) and not outside(c, s.val(c, at, *ix), lo, hi))
    c.check('names', p.attrs == list(s.d) and sorted(p.extended_attrs) == sorted(s.attrs()))


# ---------------------------------------------------------------------------
# C25
def shrink(c, s, p, tag=''):
    """optionally reject some points; returns the validity"""
    if not c.choice('rejected' + tag, [0, 1]):
        return lambda *ix: s.defined(c, *ix)
    at = c.choice('reject attr' + tag, s.attrs())
    lo, hi = limit_pair(c, s, at, 'j' + tag)
    c.call(p.reject_limits_outside, at, (lo, hi))
    return lambda *ix: s.defined(c, *ix) and not outside(c, s.val(c, at, *ix), lo, hi)


@contract('C25', [P + 'to_json', P + 'from_json', P + 'from_dict'], modes='C', trials=150)
def json_round_trip(c):
    ident = c.choice('identifier', ['0', 'a b', 'x/y', 'peaks-é', '20201021-rtbf'])
    s = Pts(c, extra=c.choice('stored', [EXTRA, ['azimuth'], []]), ident=ident)
    p = s.build(c)
    v = shrink(c, s, p)
    c.check('written', c.call(p.to_json, 'p.json').ok)
    s.check(c, p, v, 'set unchanged')
    o = c.call(Peaks.from_json, 'p.json')
    c.check('read', o.ok)
    c.check('identifier', o.value.identifier == ident)
    s.check(c, o.value, v, 'restored')
    c.check('names', list(o.value.attrs) == list(p.attrs))


@contract('C25', [P + 'to_json', Q + 'to_json', Q + 'from_json', Q + 'from_dict', P + 'from_dict'], modes='C', trials=120)
def json_suite(c):
    m = c.size('m', 1, 5)
    names = ['z', 'a', '10', '9', 'm m']
    order = c.order('names', 5)
    ss = [Pts(c, f'_{k}', extra=c.choice(f'stored{k}', [EXTRA, []]), ident=names[order[k]]) for k in range(m)]
    ps = [s.build(c) for s in ss]
    vs = [shrink(c, s, p, str(k)) for k, (s, p) in enumerate(zip(ss, ps))]
    if os.path.exists('s.json'):
        os.remove('s.json')
    if c.choice('how', ['suite', 'append']) == 'suite':
        if c.choice('over an old file', [0, 1]):
            open('s.json', 'w').write('{"old": {}}')
        c.check('written', c.call(PeaksSuite.from_peaks(ps).to_json, 's.json').ok)
    else:
        for k, p in enumerate(ps):
            c.check('written', c.call(p.to_json, 's.json', append=k > 0).ok)
    o = c.call(PeaksSuite.from_json, c.choice('as', ['s.json', ['s.json']]))
    c.check('read', o.ok)
    S = o.value
    c.check('identifiers in order', [p.identifier for p in S.peaks] == [s.ident for s in ss] and list(S.ids) == [s.ident for s in ss])
    for s, v, p in zip(ss, vs, S.peaks):
        s.check(c, p, v, 'restored')
    # several files, and a repeated identifier
    if m >= 2:
        ps[0].to_json('a.json')
        PeaksSuite.from_peaks(ps[1:]).to_json('b.json')
        o = c.call(PeaksSuite.from_json, ['b.json', 'a.json'])
        c.check('several files', o.ok and [p.identifier for p in o.value.peaks] == [s.ident for s in ss[1:] + ss[:1]])
        before = open('s.json').read()
        o = c.call(ps[c.int('again', 0, m - 1)].to_json, 's.json', append=True)
        c.check('identifier already held is rejected', not o.ok)
        c.check('file unchanged', open('s.json').read() == before)


@contract('C25', [P + 'from_dict', Q + 'from_dict'], modes='C', trials=120)
def from_memory(c):
    m = c.size('m', 1, 4)
    ss = [Pts(c, f'_{k}', extra=c.choice(f'stored{k}', [EXTRA, []]), ident=f'k{k}') for k in range(m)]
    d, vs = {}, []
    for k, s in enumerate(ss):
        e = {a: s.d[a].tolist() for a in s.d}
        if c.choice(f'mask{k}', [0, 1]):
            mask = np.array(c.mat(f'valid{k}', s.shape, kind='b')) & ~np.isnan(s.d['velocity'])
            e['valid'] = mask.tolist()
            vs.append(lambda *ix, mask=mask: bool(mask[ix]))
        else:
            vs.append(lambda *ix, s=s: s.defined(c, *ix))
        d[s.ident] = e
    before = copy.deepcopy(d)
    how = c.choice('how', ['suite', 'peaks', 'list'])
    for turn in range(2):
        if how == 'suite':
            o = c.call(PeaksSuite.from_dict, d)
        elif how == 'list':
            o = c.call(PeaksSuite.from_dict, [{k: v} for k, v in d.items()])
        else:
            o = c.call(lambda: [Peaks.from_dict(v, identifier=k) for k, v in d.items()])
        c.check('accepted', o.ok)
        ps = o.value if how == 'peaks' else o.value.peaks
        c.check('identifiers', [p.identifier for p in ps] == [s.ident for s in ss])
        for s, v, p in zip(ss, vs, ps):
            s.check(c, p, v, 'built' if turn == 0 else 'built again')
        c.check('dictionary unchanged', repr(d) == repr(before))


# ---------------------------------------------------------------------------
# C26
@contract('C26', [Q + '__init__', Q + 'append', Q + 'from_peaks', Q + 'from_peakssuite', Q + '__eq__', Q + '__getitem__', Q + '__len__'], modes='C', trials=200)
def suite_history(c):
    pool = [Peaks([1.0, 2.0], [100.0 + k, 200.0], identifier=c.choice(f'id{k}', ['a', 'b', 'c', 'd', 5, 'e'])) for k in range(8)]
    start = c.choice('start', ['one', 'peaks', 'suites'])
    model = []

    def joined(ps):
        ids = [p.identifier for p in ps]
        return len(set(ids)) == len(ids)
    if start == 'one':
        o = c.call(PeaksSuite, pool[0])
        model = [pool[0]]
        c.check('accepted', o.ok)
    elif start == 'peaks':
        k = c.int('k', 1, 5)
        o = c.call(PeaksSuite.from_peaks, pool[:k])
        c.check('accepted exactly without repeats', o.ok == joined(pool[:k]))
        c.assume(o.ok)
        model = pool[:k]
    else:
        k, q = c.int('k', 1, 3), c.int('q', 1, 3)
        c.assume(joined(pool[:k]) and joined(pool[3:3 + q]))
        a, b = PeaksSuite.from_peaks(pool[:k]), PeaksSuite.from_peaks(pool[3:3 + q])
        o = c.call(PeaksSuite.from_peakssuite, [a, b])
        c.check('merged exactly without repeats', o.ok == joined(pool[:k] + pool[3:3 + q]))
        c.check('parts unchanged', [p is r for p, r in zip(a.peaks, pool)] == [True] * k and len(a) == k and list(a.ids) == [p.identifier for p in pool[:k]]
                and len(b) == q and list(b.ids) == [p.identifier for p in pool[3:3 + q]])
        c.assume(o.ok)
        model = pool[:k] + pool[3:3 + q]
    S = o.value

    def state():
        c.check('members in order', len(S) == len(model) and all(S[i] is model[i] for i in range(len(model))) and len(S.peaks) == len(model))
        c.check('identifiers', list(S.ids) == [p.identifier for p in model] and len(set(S.ids)) == len(model))
    state()
    for t in range(c.int('appends', 0, 6)):
        what = c.choice(f'what{t}', ['peak', 'peak', 'peak', 'other'])
        if what == 'other':
            o = c.call(S.append, c.choice(f'thing{t}', ['a', None, 3, S, [pool[0]]]))
            c.check('only peak sets', not o.ok)
        else:
            p = pool[c.int(f'p{t}', 0, 7)]
            known = p.identifier in [r.identifier for r in model]
            o = c.call(S.append, p)
            c.check('accepted exactly if new', o.ok == (not known))
            if o.ok:
                model.append(p)
        state()
    c.check('not a peak set', not c.call(PeaksSuite, c.choice('thing', ['a', None, S])).ok)
    # equality
    same = PeaksSuite.from_peaks([Peaks(p._frequency.copy(), p._velocity.copy(), identifier=p.identifier) for p in model])
    c.check('equal to a suite of equal members', S == same)
    c.check('not equal to something else', not (S == 3) and not (S == model))
    if len(model) > 1:
        k = c.int('swap', 0, len(model) - 2)
        other = list(model)
        other[k], other[k + 1] = other[k + 1], other[k]
        c.check('order matters', not (S == PeaksSuite.from_peaks(other)))
        c.check('length matters', not (S == PeaksSuite.from_peaks(model[:-1])) and not (PeaksSuite.from_peaks(model[:-1]) == S))
        ch = list(model)
        r = ch[k]
        ch[k] = Peaks(r._frequency.copy(), r._velocity + 1.0, identifier=r.identifier)
        c.check('members matter', not (S == PeaksSuite.from_peaks(ch)))


@contract('C26', [Q + 'append', Q + '_check_input'], trials=60)
def suite_append(c):
    M = Many(c) if c.symbolic else None
    if not c.symbolic:
        m = c.size('m', 1, 5)
        ps = [Peaks([1.0], [2.0], identifier=f'{k}') for k in range(m)]
        S = PeaksSuite.from_peaks(ps)
    else:
        S, m = M.build(c), M.m
    new = Peaks([3.0], [4.0], identifier=c.int('id', 0, None if c.symbolic else 7))
    known = c.exists(m, lambda i: c.is_(c.at(S.ids, i), new.identifier))
    o = c.call(S.append, new)
    c.check('accepted exactly if new', c.is_(c.truth(o.ok), c.not_(known)))
    c.check('count', c.is_(c.len(S.peaks), m + 1 if o.ok else m))
    c.check('identifiers in step', c.and_(c.is_(c.len(S.ids), c.len(S.peaks)), lambda: c.forall(c.len(S.peaks), lambda i: c.is_(c.at(S.ids, i), c.at(S.peaks, i).identifier))))
    if o.ok:
        c.check('last', c.is_(c.at(S.ids, m), new.identifier))


# ---------------------------------------------------------------------------
# C33
@contract('C33', [P + '__eq__'], modes='C', trials=400)
def equality(c):
    shape = (c.size('n', 0, 4),) if c.choice('dimensions', [1, 2]) == 1 else (c.size('nr', 1, 3), c.size('nc', 1, 3))
    a = Pts(c, 'a', shape=shape, extra=c.choice('stored', [EXTRA, ['azimuth'], []]))
    same = Pts.__new__(Pts)
    same.__dict__.update(a.__dict__)
    same.d = {k: v.copy() for k, v in a.d.items()}
    how = c.choice('change', ['none', 'value', 'tiny', 'name', 'attribute', 'fewer', 'more', 'one', 'other', 'repeat', 'other attribute'])
    pa = a.build(c)
    if how == 'value':
        ok = [i for i in a.indices() if a.defined(c, *i)]
        c.assume(ok)
        k, i = c.choice('which', list(a.d)), ok[c.int('where', 0, 99) % len(ok)]
        same.d[k][i] = same.d[k][i] * 1.01 + 0.5
    elif how == 'tiny':
        k = c.choice('which', list(a.d))
        same.d[k] = same.d[k] * (1 + 1e-13)
    elif how == 'name':
        same.ident = 'other'
    elif how == 'attribute':
        c.assume(a.extra)
        same.extra = a.extra[:-1]
        same.d = {k: v for k, v in same.d.items() if k != a.extra[-1]}
    elif how == 'other attribute':
        c.assume(a.extra == ['azimuth'])
        same.extra = ['power']
        same.d['power'] = same.d.pop('azimuth')
    elif how in ('fewer', 'more', 'one', 'repeat'):
        c.assume(len(shape) == 1)
        n = shape[0]
        if how == 'fewer':
            c.assume(n >= 1)
            f = lambda v: v[:-1]
        elif how == 'one':
            c.assume(n >= 2)
            f = lambda v: v[:1]
        elif how == 'repeat':
            # one point against the same point several times
            c.assume(n >= 2)
            for k in a.d:
                a.d[k][:] = a.d[k][0]
            c.assume(a.defined(c, 0))
            pa = a.build(c)
            same.d = {k: v.copy() for k, v in a.d.items()}
            f = lambda v: v[:1]
        else:
            by = c.choice('by', [1, 2])
            f = lambda v: np.concatenate([v, np.full(by, 77.0)])
        same.d = {k: f(v) for k, v in same.d.items()}
        same.shape = same.d['frequency'].shape
    pb = same.build(c) if how != 'other' else c.choice('thing', [3, 'p', None, {}])
    va = [i for i in a.indices() if a.defined(c, *i)]
    if how == 'other':
        want = False
    else:
        vb = [i for i in same.indices() if same.defined(c, *i)]
        want = a.ident == same.ident and set(a.d) == set(same.d) and len(va) == len(vb)
        if want:
            for k in a.d:
                for i, j in zip(va, vb):
                    x, y = float(a.d[k][i]), float(same.d[k][j])
                    want = want and abs(x - y) <= 1e-8 + 1e-5 * abs(y)
    o = c.call(lambda: pa == pb)
    c.check('never raises', o.ok)
    c.check('equal exactly when they list the same points', bool(o.value) == want)
    if how != 'other':
        o = c.call(lambda: pb == pa)
        c.check('either way round', o.ok and bool(o.value) == want)


# ---------------------------------------------------------------------------
# C34
@contract('C34', [Q + 'interactive_trimming', P + '_reject_box_inside_bool_array', P + '_reject'], modes='C', trials=25)
def trimming(c):
    import matplotlib
    matplotlib.use('Agg', force=False)
    import matplotlib.pyplot as plt
    M = Many(c, extra=['azimuth'], hi=3)
    S = M.build(c)
    axes = c.choice('axes', [(['frequency'], ['velocity']), (['wavelength'], ['velocity']), (['frequency', 'frequency'], ['velocity', 'wavelength'])])
    steps, t = [], 0
    alive = [set(i for i in s.indices() if s.defined(c, *i)) for s in M.s]
    c.assume(all(alive))
    pend = [set() for _ in M.s]
    answers, boxes = [], []
    ended = False

    def hits(b):
        xl, yl, k = b
        return [set(i for i in alive[q] if between(c, float(s.val(c, axes[0][k], *i)), *xl) and between(c, float(s.val(c, axes[1][k], *i)), *yl))
                for q, s in enumerate(M.s)]
    order = []
    for t in range(12):
        if c.choice(f'step{t}', ['box', 'pause']) == 'box':
            k = c.int(f'axis{t}', 0, len(axes[0]) - 1)
            q = c.int(f'member{t}', 0, M.m - 1)
            s = M.s[q]
            i = sorted(i for i in s.indices() if s.defined(c, *i))
            i = i[c.int(f'point{t}', 0, 99) % len(i)]
            x, y = float(s.val(c, axes[0][k], *i)), float(s.val(c, axes[1][k], *i))
            w = c.real(f'w{t}', lo=0.01, hi=30)
            h = c.real(f'h{t}', lo=0.01, hi=200)
            sh = c.choice(f'shift{t}', [0.0, 0.5, 1.0])
            b = ((x - w + sh * w, x + w + sh * w), (y - h, y + h), k)
            got = hits(b)
            boxes.append(b)
            order.append('box')
            if any(got):
                for p, g in zip(pend, got):
                    p |= g
                continue
        else:
            # a double click selects nothing
            boxes.append(((0.0, 0.0), (0.0, 0.0), 0))
        for r in range(2):
            if c.choice(f'bad{t}{r}', [0, 0, 1]):
                answers.append(c.choice(f'junk{t}{r}', ['', 'q', '3', '01', 'quit', ' 1']))
        a = c.choice(f'answer{t}', ['0', '1', '2', '1']) if t < 9 else '0'
        answers.append(a)
        if a in '01':
            for p, al in zip(pend, alive):
                al -= p
        pend = [set() for _ in M.s]
        if a == '0':
            ended = True
            break
    c.assume(ended)
    nb, na = len(boxes), len(answers)

    def draw(self, fig):
        return boxes.pop(0)

    def ask(*a):
        return answers.pop(0)
    with mock.patch.object(PeaksSuite, '_draw_box', draw), mock.patch('builtins.input', ask):
        o = c.call(S.interactive_trimming, xtype=axes[0], ytype=axes[1])
    plt.close('all')
    c.check('session runs', o.ok)
    c.check('ends exactly at quit', not boxes and not answers)
    for q, s in enumerate(M.s):
        s.check(c, S[q], lambda *ix: ix in alive[q], 'removed exactly the confirmed points')
