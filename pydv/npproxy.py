"""The numpy (and scipy) names as seen by instrumented modules."""
import numpy as _np
import z3
from . import core, nd, seq
from .core import (SInt, SFlt, SBool, SCpx, SStr, Sym, Unsupported, mark, eng, integer, kind, is_sym, ite, add, sub,
                   mul, div, conc, mkint, compare, boolean, land, lor, lnot)
from .nd import Nd, asarray, emap, dtype_of, cast, known_one, dim_eq
from .seq import SList, as_seq, is_symbolic_iter
from .builtins_proxy import symbolic, active, unproxy_type

F = {}


def fn(*names):
    def deco(f):
        for n in (names or (f.__name__,)):
            F[n] = f
        return f
    return deco


def _arr(x):
    return asarray(x)


def _scalar(x):
    return is_sym(x) or (not isinstance(x, (Nd, _np.ndarray, list, tuple)) and core._isnum(x))


class NumpyProxy:
    """Module stand-in: modelled when symbolic values are involved, native otherwise."""

    def __init__(self, native, table, name):
        self.__dict__['_native'] = native
        self.__dict__['_table'] = table
        self.__dict__['_name'] = name

    def __getattr__(self, name):
        nat = getattr(self._native, name) if hasattr(self._native, name) else None
        if not active():
            if nat is None:
                raise AttributeError(name)
            return _dtype_wrap(nat) if callable(nat) and not isinstance(nat, type) else nat
        full = f'{self._name}.{name}'
        if full == 'numpy.pi':
            return SFlt(eng().PI)
        f = self._table.get(name)
        if f is not None:
            return _wrap(f, nat, full, name)
        if nat is None:
            raise mark(AttributeError(f"module '{self._name}' has no attribute '{name}'"))
        if isinstance(nat, type) or not callable(nat):
            if type(nat).__name__ == 'module':
                return NumpyProxy(nat, SUB.get(full, {}), full)
            return nat
        return _wrap(None, nat, full, name)


ALWAYS = {'array', 'asarray', 'empty', 'zeros', 'ones', 'full', 'empty_like', 'zeros_like', 'ones_like', 'full_like',
          'copy', 'atleast_1d', 'tile', 'arange'}


def _unproxy_args(a, k):
    a = tuple(unproxy_type(x) for x in a)
    k = {n: unproxy_type(v) for n, v in k.items()}
    return a, k


def _dtype_wrap(nat):
    def call(*a, **k):
        a, k = _unproxy_args(a, k)
        return nat(*a, **k)
    call.__name__ = getattr(nat, '__name__', 'f')
    return call


def _wrap(f, nat, full, name):
    def call(*a, **k):
        a, k = _unproxy_args(a, k)
        sym = symbolic(a) or symbolic(k)
        if not sym and not (name in ALWAYS and f is not None and full.startswith('numpy.') and full.count('.') == 1):
            try:
                return nat(*a, **k)
            except Exception as e:
                raise mark(e)
        if f is None:
            raise Unsupported(f'{full} of symbolic values')
        return f(*a, **k)
    call.__name__ = name
    return call


# ---------------------------------------------------------------------------
# creation
# ---------------------------------------------------------------------------
def _shape(s):
    s = conc(s)
    if isinstance(s, (list, tuple)):
        s = tuple(conc(x) for x in s)
    elif isinstance(s, Nd):
        s = tuple(s.at(i) for i in range(s._shape[0])) if s.ndim else (s.at(),)
    else:
        s = (s,)
    out = []
    for d in s:
        if kind(d) not in 'ib':
            raise mark(TypeError("'float' object cannot be interpreted as an integer"))
        if is_sym(d):
            if eng().branch(integer(d) < 0):
                raise mark(ValueError('negative dimensions are not allowed'))
        elif d < 0:
            raise mark(ValueError('negative dimensions are not allowed'))
        out.append(d)
    return tuple(out)


def _default(dt):
    return {'f': 0.0, 'i': 0, 'b': False, 'c': 0j}[dt]


@fn('zeros')
def zeros(shape, dtype=None, **k):
    dt = dtype_of(dtype) or 'f'
    return Nd.make(_shape(shape), lambda *i: _default(dt), dt)


@fn('ones')
def ones(shape, dtype=None, **k):
    dt = dtype_of(dtype) or 'f'
    return Nd.make(_shape(shape), lambda *i: cast(1, dt), dt)


@fn('empty')
def empty(shape, dtype=None, **k):
    dt = dtype_of(dtype) or 'f'
    E = eng()
    sh = _shape(shape)
    srt = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort(), 'c': z3.RealSort()}[dt]

    def garbage(tag):
        params = []
        g = z3.Function(E.fresh('uninit' + tag), *([z3.IntSort()] * len(sh) + [srt])) if sh else None
        return g
    g = garbage('')
    g2 = garbage('i') if dt == 'c' else None

    def f(*i):
        ix = [integer(x) for x in i]
        if not ix:
            return _default(dt)
        t = g(*ix)
        if dt == 'c':
            return SCpx(t, g2(*ix))
        return {'f': SFlt, 'i': SInt, 'b': SBool}[dt](t)
    return Nd.make(sh, f, dt)


@fn('full')
def full(shape, fill_value, dtype=None, **k):
    dt = dtype_of(dtype)
    v = conc(fill_value)
    if isinstance(v, (Nd, list, tuple, _np.ndarray)):
        r = empty(shape, dt or asarray(v).dt)
        r.assign(v)
        return r
    return Nd.make(_shape(shape), lambda *i: cast(v, dt) if dt else v, dt)


def _like(x):
    x = asarray(x)
    return x


@fn('zeros_like')
def zeros_like(x, dtype=None, **k):
    x = _like(x)
    return zeros(x._shape, dtype or x.dt)


@fn('ones_like')
def ones_like(x, dtype=None, **k):
    x = _like(x)
    return ones(x._shape, dtype or x.dt)


@fn('empty_like')
def empty_like(x, dtype=None, **k):
    x = _like(x)
    return empty(x._shape, dtype or x.dt)


@fn('full_like')
def full_like(x, fill_value, dtype=None, **k):
    x = _like(x)
    return full(x._shape, fill_value, dtype or x.dt)


@fn('array')
def array(x, dtype=None, copy=True, ndmin=0, **k):
    if k:
        raise Unsupported('array options')
    if isinstance(x, (list, tuple)) and not symbolic(x) and not isinstance(x, SList):
        pass
    if isinstance(x, Sym) or core._isnum(conc(x)):
        r = asarray(x, dtype_of(dtype))
    else:
        r = asarray(x, dtype_of(dtype))
        if isinstance(x, Nd) and r is x:
            r = x.copy()
    while r.ndim < ndmin:
        r = r.reshape(*((1,) + r._shape))
    return r


@fn('asarray', 'ascontiguousarray', 'asanyarray')
def asarray_(x, dtype=None, **k):
    return asarray(x, dtype_of(dtype))


@fn('copy')
def copy_(x, **k):
    return asarray(x).copy()


@fn('atleast_1d')
def atleast_1d(x):
    x = asarray(x)
    return x if x.ndim else x.reshape(1)


@fn('arange')
def arange(*a, dtype=None, **k):
    a = [conc(x) for x in a]
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else 1
    if all(kind(x) in 'ib' for x in (start, stop, step)):
        from .seq import SymRange
        if any(is_sym(x) for x in (start, stop, step)):
            r = SymRange(start, stop, step)
            return Nd.make((r.n,), lambda i: cast(r.get(i), dtype_of(dtype) or 'i'), dtype_of(dtype) or 'i')
        return asarray(_np.arange(start, stop, step), dtype_of(dtype))
    if any(is_sym(x) for x in (start, stop, step)):
        # float arange: ceil((stop - start) / step) elements
        q = div(sub(stop, start), step)
        e = core.real(q)
        n = mkint(z3.simplify(z3.If(z3.IsInt(e), z3.ToInt(e), z3.ToInt(e) + 1)))
        if eng().branch(integer(n) < 0):
            n = 0
        return Nd.make((n,), lambda i: add(start, mul(i, step)), 'f')
    return asarray(_np.arange(start, stop, step), dtype_of(dtype))


@fn('linspace')
def linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    if k or not endpoint:
        raise Unsupported('linspace options')
    num = conc(num)
    n = _shape(num)[0]
    step = div(sub(b, a), ite(boolean(compare('>', n, 1)), sub(n, 1), 1) if is_sym(n) else max(n - 1, 1), scalar=False)

    def f(i):
        return ite(boolean(land(compare('==', i, sub(n, 1)), compare('>', n, 1))), cast(b, 'f'), add(a, mul(cast(i, 'f'), step)))
    return Nd.make((n,), f, 'f')


@fn('geomspace')
def geomspace(a, b, num=50, endpoint=True, **k):
    num = conc(num)
    n = _shape(num)[0]
    for v in (a, b):
        if kind(v) == 'c':
            raise Unsupported('geomspace')
    if any(bool(compare('==', v, 0)) for v in (a, b)):
        raise mark(ValueError('Geometric sequence cannot include zero'))
    get = core.opaque('geomspace', [], [cast(a, 'f'), cast(b, 'f'), n], 1, 'f')

    def f(i):
        return ite(boolean(compare('==', i, 0)), cast(a, 'f'), ite(boolean(compare('==', i, sub(n, 1))), cast(b, 'f'), get(i)))
    return Nd.make((n,), f, 'f')


# ---------------------------------------------------------------------------
# elementwise
# ---------------------------------------------------------------------------
def _out(r, out, where):
    if where is not None and where is not True:
        if out is None:
            raise Unsupported('where= without out=')
        w = asarray(where)
        if w is out or (isinstance(out, Nd) and w.cell is out.cell):
            w = w.copy()
        r = asarray(r)
        sh = nd.broadcast_shapes([r._shape, out._shape]) if r.ndim else out._shape
        out.assign(r, where=w)
        return out
    if out is not None:
        out.assign(r)
        return out
    return r


def ew(name, f, nin):
    def g(*a, out=None, where=None, dtype=None, **k):
        if k:
            raise Unsupported(f'{name} options')
        if isinstance(out, tuple):
            out = out[0]
        r = emap(f, *a[:nin])
        if dtype is not None:
            r = asarray(r, dtype_of(dtype))
        if len(a) > nin:
            out = a[nin]
        return _out(r, out, where)
    F[name] = g


def _sign(x):
    return ite(boolean(compare('>', x, 0)), cast(1, kind(x) if kind(x) != 'b' else 'i'),
               ite(boolean(compare('<', x, 0)), cast(-1, kind(x) if kind(x) != 'b' else 'i'), cast(0, kind(x) if kind(x) != 'b' else 'i')))


def _sqrt(x):
    if not is_sym(x):
        import math
        return math.sqrt(x) if x >= 0 else float('nan')
    r = core.ufun('sqrt', cast(x, 'f'))
    return SFlt(r.e, core.nor(r.nan, z3.simplify(core.real(x) < 0)))


def _un(name, native):
    def f(x):
        if not is_sym(x):
            return float(native(x))
        return core.ufun(name, cast(x, 'f'))
    return f


def _log(name, native):
    def f(x):
        if not is_sym(x):
            with _np.errstate(all='ignore'):
                return float(native(x))
        r = core.ufun(name, cast(x, 'f'))
        return SFlt(r.e, core.nor(r.nan, z3.simplify(core.real(x) <= 0)))
    return f


def _floor(x):
    if not is_sym(x):
        return float(_np.floor(x))
    if kind(x) in 'ib':
        return cast(x, 'f')
    return SFlt(z3.ToReal(z3.ToInt(x.e)), x.nan)


def _ceil(x):
    if not is_sym(x):
        return float(_np.ceil(x))
    return core.neg(_floor(core.neg(cast(x, 'f'))))


ew('add', add, 2)
ew('subtract', sub, 2)
ew('multiply', mul, 2)
ew('divide', nd.ndiv, 2)
ew('true_divide', nd.ndiv, 2)
ew('floor_divide', core.floordiv, 2)
ew('mod', core.mod, 2)
ew('remainder', core.mod, 2)
ew('negative', core.neg, 1)
ew('abs', core.absolute, 1)
ew('absolute', core.absolute, 1)
ew('fabs', core.absolute, 1)
ew('conjugate', core.conj, 1)
ew('conj', core.conj, 1)
ew('square', lambda x: mul(x, x), 1)
ew('sqrt', _sqrt, 1)
ew('exp', core.cexp, 1)
ew('log', _log('log', _np.log), 1)
ew('log10', _log('log10', _np.log10), 1)
ew('cos', _un('cos', _np.cos), 1)
ew('sin', _un('sin', _np.sin), 1)
ew('power', core.power, 2)
ew('sign', _sign, 1)
ew('floor', _floor, 1)
ew('ceil', _ceil, 1)
ew('trunc', lambda x: cast(core.trunc(x), 'f'), 1)
ew('rint', lambda x: cast(core.rounded(x), 'f'), 1)
ew('isnan', nd.isnan, 1)
ew('isfinite', lambda x: lnot(nd.isnan(x)) if not core._is_inf(conc(x)) else False, 1)
ew('isinf', lambda x: core._is_inf(conc(x)), 1)
ew('logical_not', lambda x: lnot(x), 1)
ew('logical_and', lambda a, b: land(a, b), 2)
ew('logical_or', lambda a, b: lor(a, b), 2)
ew('logical_xor', lambda a, b: compare('!=', nd.mkb(a), nd.mkb(b)), 2)
ew('bitwise_and', lambda a, b: land(a, b), 2)
ew('bitwise_or', lambda a, b: lor(a, b), 2)
ew('invert', lambda x: lnot(x), 1)
ew('greater', lambda a, b: compare('>', a, b), 2)
ew('greater_equal', lambda a, b: compare('>=', a, b), 2)
ew('less', lambda a, b: compare('<', a, b), 2)
ew('less_equal', lambda a, b: compare('<=', a, b), 2)
ew('equal', lambda a, b: compare('==', a, b), 2)
ew('not_equal', lambda a, b: compare('!=', a, b), 2)
ew('maximum', lambda a, b: ite(boolean(compare('>=', a, b)), a, b), 2)
ew('minimum', lambda a, b: ite(boolean(compare('<=', a, b)), a, b), 2)
ew('real', lambda x: SFlt(core.cpx(x).re) if kind(x) == 'c' else x, 1)
ew('imag', lambda x: SFlt(core.cpx(x).im) if kind(x) == 'c' else 0.0, 1)
ew('angle', lambda x: core.angle(x), 1)


@fn('round', 'around', 'round_')
def round_(x, decimals=0, **k):
    if _scalar(x) and not is_sym(x) and is_sym(decimals):
        return core.rounded(x, decimals)
    return emap(lambda v: cast(core.rounded(v), 'f') if (not is_sym(decimals) and decimals == 0) else core.rounded(v, decimals), x)


@fn('clip')
def clip(x, a=None, b=None, **k):
    def f(v):
        if a is not None:
            v = ite(boolean(compare('<', v, a)), a, v)
        if b is not None:
            v = ite(boolean(compare('>', v, b)), b, v)
        return v
    return emap(f, x)


@fn('where')
def where(c, *a):
    if not a:
        return nonzero(c)
    return emap(lambda p, x, y: ite(boolean(p), x, y), c, a[0], a[1])


@fn('nan_to_num')
def nan_to_num(x, nan=0.0, **k):
    return emap(lambda v: ite(boolean(nd.isnan(v)), cast(nan, 'f'), nd.clean(v)), x)


# ---------------------------------------------------------------------------
# reductions
# ---------------------------------------------------------------------------
F['sum'] = lambda a, axis=None, **k: nd.np_sum(a, axis, **k)
F['max'] = F['amax'] = lambda a, axis=None, **k: nd.np_ext('max', a, axis, **k)
F['min'] = F['amin'] = lambda a, axis=None, **k: nd.np_ext('min', a, axis, **k)
F['mean'] = lambda a, axis=None, **k: nd.np_mean(a, axis, **k)
F['argmax'] = lambda a, axis=None: nd.np_argext('max', a, axis)
F['argmin'] = lambda a, axis=None: nd.np_argext('min', a, axis)
F['any'] = lambda a, axis=None: nd.np_any(a, axis)
F['all'] = lambda a, axis=None: nd.np_all(a, axis)
F['nanmean'] = lambda a, axis=None: nd.np_nanmean(a, axis)
F['nanstd'] = lambda a, axis=None, ddof=0: nd.np_nanstd(a, axis, ddof)
F['std'] = lambda a, axis=None, ddof=0: nd.np_std(a, axis, ddof)
F['dot'] = lambda a, b: nd.dot(a, b)
F['matmul'] = lambda a, b: nd.dot(a, b)
F['argsort'] = nd.np_argsort


@fn('inner', 'vdot')
def inner(a, b):
    return nd.dot(a, b)


@fn('outer')
def outer(a, b):
    a, b = asarray(a), asarray(b)
    return Nd.make((a._shape[0], b._shape[0]), lambda i, j: mul(a.at(i), b.at(j)), nd.promote(a.dt, b.dt))


@fn('ptp')
def ptp(a, axis=None):
    return nd.binop(sub, nd.np_ext('max', a, axis), nd.np_ext('min', a, axis))


@fn('nansum')
def nansum(a, axis=None):
    return nd.np_sum(nan_to_num(a), axis)


@fn('count_nonzero')
def count_nonzero(a, axis=None):
    return nd.np_sum(emap(lambda x: nd.mkb(x), asarray(a)), axis)


@fn('cumsum')
def cumsum(a, axis=None, **k):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('cumsum')
    return Nd.make(a._shape, lambda i: core.total(add(i, 1), lambda j: a.at(j)), a.dt)


@fn('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarray(a), asarray(b)

    def close(x, y):
        d = core.absolute(sub(nd.clean(x), nd.clean(y)))
        r = compare('<=', d, add(atol, mul(rtol, core.absolute(nd.clean(y)))))
        nx, ny = nd.isnan(x), nd.isnan(y)
        both = land(nx, ny) if equal_nan else False
        return lor(both, land(lnot(nx), lnot(ny), r))
    return nd.np_all(emap(close, a, b)) if (a.ndim or b.ndim) else close(a.at(), b.at())


@fn('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return emap(lambda x, y: compare('<=', core.absolute(sub(x, y)), add(atol, mul(rtol, core.absolute(y)))), a, b)


@fn('array_equal')
def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a._shape, b._shape):
        if not dim_eq(p, q):
            return False
    return nd.np_all(emap(lambda x, y: compare('==', x, y), a, b))


@fn('diff')
def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported('diff')
    m = a._shape[0]
    if eng().branch(integer(m) <= 0) if is_sym(m) else m <= 0:
        return Nd.make((0,), lambda i: 0.0, 'f')
    return Nd.make((sub(m, 1),), lambda i: sub(a.at(add(i, 1)), a.at(i)), a.dt)


@fn('trapezoid', 'trapz')
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    ax = axis if axis >= 0 else axis + y.ndim
    n = y._shape[ax]
    xs = asarray(x) if x is not None else None
    if xs is not None and xs.ndim != 1:
        raise Unsupported('trapezoid')

    def f(*i):
        def term(j):
            j1 = add(j, 1)
            h = sub(xs.at(j1), xs.at(j)) if xs is not None else dx
            a = y.at(*(i[:ax] + (j,) + i[ax:]))
            b = y.at(*(i[:ax] + (j1,) + i[ax:]))
            return mul(mul(h, add(a, b)), 0.5)
        return core.total(sub(n, 1), term)
    sh = y._shape[:ax] + y._shape[ax + 1:]
    r = Nd.make(sh, f)
    return r if sh else r.at()


# ---------------------------------------------------------------------------
# selection and shape
# ---------------------------------------------------------------------------
@fn('flatnonzero')
def flatnonzero(a):
    f = asarray(a).flatten()
    n, sel, _ = core.filtered(f._shape[0], lambda i: nd.mkb(f.at(i)))
    return Nd.make((n,), lambda i: sel(i), 'i')


@fn('nonzero')
def nonzero(a):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('nonzero of 2-d')
    return (flatnonzero(a),)


@fn('argwhere')
def argwhere(a):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('argwhere of 2-d')
    n, sel, _ = core.filtered(a._shape[0], lambda i: nd.mkb(a.at(i)))
    return Nd.make((n, 1), lambda i, j: sel(i), 'i')


@fn('delete')
def delete(a, idx, axis=None):
    a = asarray(a)
    k = asarray(idx)
    if axis is None:
        a = a.flatten()
        axis = 0
    n = a._shape[axis]
    if k.ndim == 0:
        k = k.reshape(1)
    if k.dt == 'f' and known_one(k._shape[0]) is False and not is_sym(k._shape[0]) and k._shape[0] == 0:
        return a.copy()
    inb = core.forall(k._shape[0], lambda j: land(compare('>=', k.at(j), 0), compare('<', k.at(j), n)))
    if not (inb is True or eng().branch(boolean(inb))):
        raise Unsupported('delete with indices outside the axis')
    m, sel, _ = core.filtered(n, lambda i: core.forall(k._shape[0], lambda j: compare('!=', k.at(j), i)))
    sh = a._shape[:axis] + (m,) + a._shape[axis + 1:]
    return Nd.make(sh, lambda *i: a.at(*(i[:axis] + (sel(i[axis]),) + i[axis + 1:])), a.dt)


@fn('concatenate', 'hstack_', 'append_')
def concatenate(xs, axis=0, **k):
    xs = [asarray(x) for x in xs]
    if axis is None:
        xs = [x.flatten() for x in xs]
        axis = 0
    d = xs[0].ndim
    if axis < 0:
        axis += d
    for x in xs:
        if x.ndim != d or d == 0:
            raise mark(ValueError('all the input array dimensions must match'))
    for x in xs[1:]:
        for q in range(d):
            if q != axis and not dim_eq(x._shape[q], xs[0]._shape[q]):
                raise mark(ValueError('all the input array dimensions except for the concatenation axis must match exactly'))
    tot = 0
    starts = []
    for x in xs:
        starts.append(tot)
        tot = add(tot, x._shape[axis])
    dt = nd.promote(*[x.dt for x in xs])

    def f(*i):
        j = i[axis]
        r = cast(xs[-1].at(*(i[:axis] + (sub(j, starts[-1]),) + i[axis + 1:])), dt)
        for x, s, e in reversed(list(zip(xs[:-1], starts[:-1], starts[1:]))):
            v = cast(x.at(*(i[:axis] + (sub(j, s),) + i[axis + 1:])), dt)
            r = ite(boolean(compare('<', j, e)), v, r)
        return r
    sh = xs[0]._shape[:axis] + (tot,) + xs[0]._shape[axis + 1:]
    return Nd.make(sh, f, dt)


@fn('hstack')
def hstack(xs, **k):
    xs = [asarray(x) for x in xs]
    return concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


@fn('vstack')
def vstack(xs, **k):
    if is_symbolic_iter(xs):
        return asarray(xs)
    xs = [asarray(x) for x in xs]
    return concatenate([x.reshape(1, x._shape[0]) if x.ndim == 1 else x for x in xs], axis=0)


@fn('stack')
def stack(xs, axis=0, **k):
    if axis != 0:
        r = stack(xs)
        return moveaxis(r, 0, axis)
    return asarray(xs).copy()


@fn('column_stack')
def column_stack(xs):
    return stack(xs).transpose()


@fn('append')
def append(a, b, axis=None):
    return concatenate([asarray(a), nd.asarray(b) if asarray(b).ndim else asarray(b).reshape(1)], axis=axis)


@fn('moveaxis')
def moveaxis(a, s, d):
    a = asarray(a)
    order = [i for i in range(a.ndim) if i != s % a.ndim]
    order.insert(d % a.ndim, s % a.ndim)
    return a.transpose(*order)


@fn('expand_dims')
def expand_dims(a, axis):
    a = asarray(a)
    if axis < 0:
        axis += a.ndim + 1
    return a.reshape(*(a._shape[:axis] + (1,) + a._shape[axis:]))


@fn('squeeze')
def squeeze(a, axis=None):
    return asarray(a).squeeze(axis)


@fn('reshape')
def reshape(a, shape, **k):
    return asarray(a).reshape(shape if isinstance(shape, tuple) else (shape,))


@fn('ravel')
def ravel(a, **k):
    return asarray(a).flatten()


@fn('transpose')
def transpose(a, axes=None):
    return asarray(a).transpose(*(axes or ()))


@fn('swapaxes')
def swapaxes(a, i, j):
    a = asarray(a)
    o = list(range(a.ndim))
    o[i], o[j] = o[j], o[i]
    return a.transpose(*o)


@fn('flipud')
def flipud(a):
    return asarray(a)[::-1]


@fn('fliplr')
def fliplr(a):
    return asarray(a)[:, ::-1]


@fn('flip')
def flip(a, axis=None):
    a = asarray(a)
    if axis is None:
        return a[tuple(slice(None, None, -1) for _ in range(a.ndim))]
    ax = axis % a.ndim
    return a[tuple(slice(None, None, -1) if d == ax else slice(None) for d in range(a.ndim))]


@fn('tile')
def tile(a, reps):
    a = asarray(a)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    while a.ndim < len(reps):
        a = a.reshape(*((1,) + a._shape))
    reps = (1,) * (a.ndim - len(reps)) + tuple(conc(r) for r in reps)
    shape, src = [], []
    for s, r in zip(a._shape, reps):
        if known_one(r):
            shape.append(s)
            src.append('id')
        elif known_one(s):
            if is_sym(r) and eng().branch(integer(r) < 0):
                r = 0
            shape.append(r)
            src.append('zero')
        else:
            shape.append(mul(s, r))
            src.append(s)

    def f(*i):
        return a.at(*[x if q == 'id' else 0 if q == 'zero' else core.mod(x, q) for x, q in zip(i, src)])
    return Nd.make(shape, f, a.dt)


@fn('repeat')
def repeat(a, n, axis=None):
    a = asarray(a)
    if a.ndim == 0 or known_one(a._shape[0]):
        return tile(a.reshape(1), n)
    raise Unsupported('repeat')


@fn('broadcast_to')
def broadcast_to(a, shape):
    a = asarray(a)
    sh = _shape(shape)
    return Nd.make(sh, lambda *i: a.at_b(i, sh), a.dt)


@fn('meshgrid')
def meshgrid(*a, **k):
    raise Unsupported('meshgrid')


@fn('size')
def size(a):
    return asarray(a).size


@fn('shape')
def shape(a):
    return asarray(a).shape


@fn('ndim')
def ndim(a):
    return asarray(a).ndim


@fn('isscalar')
def isscalar(a):
    return _scalar(a)


@fn('iscomplexobj')
def iscomplexobj(a):
    return asarray(a).dt == 'c'


@fn('eye', 'identity')
def eye(n, **k):
    return Nd.make((n, n), lambda i, j: ite(boolean(compare('==', i, j)), 1.0, 0.0), 'f')


@fn('sort')
def sort(a, **k):
    a = asarray(a)
    p = nd.np_argsort(a)
    return a[p]


@fn('searchsorted')
def searchsorted(*a, **k):
    raise Unsupported('searchsorted')


@fn('unique')
def unique(*a, **k):
    raise Unsupported('unique')


@fn('corrcoef')
def corrcoef(x, **k):
    x = asarray(x)
    if k:
        raise Unsupported('corrcoef options')
    n, m = x._shape
    get = core.opaque('corrcoef', [([n, m], lambda i, j: x.at(i, j))], [], 2, 'f')
    return Nd.make((n, n), lambda i, j: get(i, j), 'f')


@fn('interp')
def interp(*a, **k):
    raise Unsupported('interp')


# fft --------------------------------------------------------------------
FFT = {'fft': lambda a, n=None, axis=-1, **k: nd.np_fft(a, n, axis, **k)}


def inv(a):
    a = asarray(a)
    n, m = a._shape
    if not dim_eq(n, m):
        raise mark(_np.linalg.LinAlgError('Last 2 dimensions of the array must be square'))
    get = core.opaque('inv', [([n, m], lambda i, j: a.at(i, j))], [], 2, 'f')
    return Nd.make((n, n), lambda i, j: get(i, j), 'f')


LINALG = {'inv': inv}
SUB = {'numpy.fft': FFT, 'numpy.linalg': LINALG, 'numpy.random': {}}

# scipy --------------------------------------------------------------------


def detrend(a, axis=-1, type='linear', **k):
    a = asarray(a)
    if k:
        raise Unsupported('detrend options')
    if a.ndim == 2 and known_one(a._shape[0]):
        r = detrend(a.flatten(), type=type)
        return r.reshape(*a._shape)
    if a.ndim != 1:
        n = a._shape[1]
        if axis not in (-1, 1) or a.ndim != 2:
            raise Unsupported('detrend axis')

        def f(i, j):
            g = core.opaque('detrend_' + str(type), [([n], lambda q: a.at(i, q))], [], 1, 'f', given=[z3.And(core.integer(i) >= 0, core.integer(i) < core.integer(a._shape[0]))] if is_sym(i) else ())
            return g(j)
        return Nd.make(a._shape, f, 'f')
    n = a._shape[0]
    get = core.opaque('detrend_' + str(type), [([n], lambda i: a.at(i))], [], 1, 'f')
    return Nd.make((n,), lambda i: get(i), 'f')


def correlate(a, b, mode='full', method='auto'):
    if mode != 'full':
        raise Unsupported('correlate mode')
    a, b = asarray(a), asarray(b)
    na, nb = a._shape[0], b._shape[0]
    n = sub(add(na, nb), 1)

    def f(k):
        # lag = k - (nb - 1): sum_i a[i] * b[i - lag]
        lag = sub(k, sub(nb, 1))

        def term(i):
            j = sub(i, lag)
            ok = land(compare('>=', j, 0), compare('<', j, nb))
            return ite(boolean(ok), mul(a.at(i), b.at(j)), 0.0)
        return core.total(na, term)
    return Nd.make((n,), f, 'f')


def tukey(M, alpha=0.5, sym=True, **k):
    M = conc(M)
    if kind(M) not in 'ib':
        M = core.trunc(M)
    if eng().branch(integer(M) < 0) if is_sym(M) else M < 0:
        raise mark(ValueError('Window length M must be a non-negative integer'))
    get = core.opaque('tukey', [], [M, cast(alpha, 'f'), 1 if sym is True else 0 if sym is False else sym], 1, 'f')
    return Nd.make((M,), lambda i: get(i), 'f')


def j0(x):
    return emap(lambda v: core.ufun('j0', cast(v, 'f')), x)


def y0(x):
    return emap(lambda v: core.ufun('y0', cast(v, 'f')), x)


SCIPY = {'detrend': detrend, 'correlate': correlate, 'tukey': tukey, 'j0': j0, 'y0': y0}


class NpRoot(NumpyProxy):
    pass


NP = NumpyProxy(_np, F, 'numpy')
