"""Builtins as seen by instrumented modules: native on ordinary values,
modelled on symbolic ones."""
import builtins as B
import numpy as _np
import z3
from . import core, nd, seq
from .core import (SInt, SFlt, SBool, SStr, SCpx, Sym, Unsupported, mark, eng, integer, kind, is_sym, ite, add, sub,
                   mul, conc, mkint, compare, boolean, land)
from .nd import Nd
from .seq import SList, Seq, SymRange, ZipSeq, EnumSeq, SliceSeq, ItemsSeq, TmplSeq, as_seq, is_symbolic_iter, is_proxy


def active():
    return core.ENG is not None


def symbolic(x, depth=0):
    """does a value contain symbolic parts (shallow containers only)?"""
    if isinstance(x, (Sym, Nd, Seq)):
        return True
    if isinstance(x, SList) and x._sym is not None:
        return True
    if is_proxy(x):
        return True
    if depth < 4:
        if isinstance(x, (list, tuple)):
            return any(symbolic(v, depth + 1) for v in (list.__iter__(x) if isinstance(x, list) else x))
        if isinstance(x, dict):
            return any(symbolic(v, depth + 1) for v in x.values())
        if isinstance(x, slice):
            return any(is_sym(v) for v in (x.start, x.stop, x.step))
    return False


class PMeta(type):
    def __instancecheck__(cls, x):
        return p_isinstance(x, cls)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._native)

    def __eq__(cls, o):
        return o is cls or o is cls._native

    def __hash__(cls):
        return hash(cls._native)

    def __getattr__(cls, name):
        return getattr(cls._native, name)


class p_float(metaclass=PMeta):
    _native = float

    def __new__(cls, x=0.0):
        x = conc(x)
        if isinstance(x, Nd):
            if x.ndim and not all(nd.known_one(s) for s in x._shape):
                raise mark(TypeError('only length-1 arrays can be converted to Python scalars'))
            x = x.at(*([0] * x.ndim))
        if isinstance(x, SStr):
            raise Unsupported('float of a symbolic string')
        if is_sym(x):
            if kind(x) == 'c':
                raise mark(TypeError('float() of complex'))
            return nd.cast(x, 'f')
        try:
            return float(x)
        except (TypeError, ValueError, OverflowError) as e:
            raise mark(e)


class p_int(metaclass=PMeta):
    _native = int

    def __new__(cls, x=0, *a):
        x = conc(x)
        if isinstance(x, Nd):
            if x.ndim and not all(nd.known_one(s) for s in x._shape):
                raise mark(TypeError('only length-1 arrays can be converted to Python scalars'))
            x = x.at(*([0] * x.ndim))
        if isinstance(x, SStr):
            raise Unsupported('int of a symbolic string')
        if is_sym(x):
            return core.trunc(x)
        try:
            return int(x, *a)
        except (TypeError, ValueError, OverflowError) as e:
            raise mark(e)


class p_bool(metaclass=PMeta):
    _native = bool

    def __new__(cls, x=False):
        if isinstance(x, Nd):
            return bool(x)
        if is_sym(x) and not isinstance(x, SStr):
            return nd.mkb(x) if not isinstance(x, SCpx) else bool(x)
        return bool(x)


class p_complex(metaclass=PMeta):
    _native = complex

    def __new__(cls, *a):
        if len(a) == 1 and is_sym(a[0]):
            return core.cpx(a[0])
        return complex(*a)


class p_str(metaclass=PMeta):
    _native = str

    def __new__(cls, x='', *a):
        if isinstance(x, SStr):
            return x
        if is_sym(x):
            return SStr(_strcode(x))
        return str(x, *a)


def _strcode(x):
    f = z3.Function('str_of', z3.RealSort(), z3.IntSort())
    return f(core.real(x))


class p_list(metaclass=PMeta):
    _native = list

    def __new__(cls, x=()):
        if not active():
            return list(x)
        return to_slist(x)


def to_slist(x):
    if is_symbolic_iter(x):
        s = as_seq(x)
        return SList.from_seq(s)
    if isinstance(x, dict):
        return SList(list(x))
    return SList(list(x))


class p_tuple(metaclass=PMeta):
    _native = tuple

    def __new__(cls, x=()):
        if active() and is_symbolic_iter(x):
            return to_slist(x)
        return tuple(x)


NATIVE = {p_float: float, p_int: int, p_bool: bool, p_complex: complex, p_str: str, p_list: list, p_tuple: tuple}


def unproxy_type(t):
    try:
        return NATIVE.get(t, t) if isinstance(t, type) else t
    except TypeError:
        return t


def p_isinstance(x, t):
    if isinstance(t, tuple):
        return any(p_isinstance(x, u) for u in t)
    t = unproxy_type(t)
    x = conc(x) if isinstance(x, Sym) else x
    if isinstance(x, Sym):
        k = kind(x)
        want = {'f': (float, _np.floating, _np.float64), 'i': (int, _np.integer), 'b': (bool, int), 'c': (complex,), 's': (str,)}[k]
        return t in want or t is object
    if isinstance(x, Nd):
        return t in (_np.ndarray, object)
    if isinstance(x, (SymRange,)):
        return t in (range, object)
    if isinstance(x, Seq):
        return t in (list, object)
    if is_proxy(x):
        return issubclass(x.__class__, t)
    return isinstance(x, t)


def p_len(x):
    if isinstance(x, (Nd, Seq, SList)):
        return x.sym_len()
    if hasattr(type(x), '__len__') and getattr(type(x), '_pydv_inst', False):
        return type(x).__len__(x)          # symbolic results are allowed
    return len(x)


def p_range(*a):
    a = [conc(v) for v in a]
    if any(isinstance(v, Nd) for v in a):
        a = [v.__index__() if isinstance(v, Nd) and v.ndim == 0 and not is_sym(v.at()) else (v.at() if isinstance(v, Nd) and v.ndim == 0 else v) for v in a]
    if any(is_sym(v) for v in a):
        for v in a:
            if kind(v) not in 'ib':
                raise mark(TypeError('object cannot be interpreted as an integer'))
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    try:
        return range(*a)
    except (TypeError, ValueError) as e:
        raise mark(e)


def _minmax(which, args, key, default):
    if len(args) == 1:
        x = args[0]
        if not active():
            kw = {} if default is _NO else {'default': default}
            return getattr(B, which)(x, key=key, **kw)
        if is_symbolic_iter(x):
            s = as_seq(x)
            if key is not None:
                raise Unsupported('min/max with key')
            if not eng().branch(integer(s.n) > 0):
                if default is not _NO:
                    return default
                raise mark(ValueError(f'{which}() arg is an empty sequence'))
            return core.extremum(s.n, lambda i: s.get(i), which)[0]
        items = list(x)
    else:
        items = list(args)
    if not items:
        if default is not _NO:
            return default
        raise mark(ValueError(f'{which}() arg is an empty sequence'))
    if key is not None or not any(is_sym(v) for v in items):
        return getattr(B, which)(items, key=key)
    best = items[0]
    for v in items[1:]:
        c = compare('>' if which == 'max' else '<', v, best)
        if c is NotImplemented:
            raise mark(TypeError('unorderable'))
        if core._is_inf(v) or core._is_inf(best):
            best = v if bool(c) else best
        else:
            best = ite(c, v, best)
    return best


_NO = object()


def p_min(*a, key=None, default=_NO):
    return _minmax('min', a, key, default)


def p_max(*a, key=None, default=_NO):
    return _minmax('max', a, key, default)


def p_abs(x):
    if isinstance(x, Nd):
        return x.__abs__()
    if is_sym(x):
        return core.absolute(x)
    return abs(x)


def p_round(x, nd_=None):
    if isinstance(x, Nd) and x.ndim == 0:
        x = x.at()
    nd_ = conc(nd_)
    if is_sym(x) or is_sym(nd_):
        return core.rounded(x, nd_)
    return round(x) if nd_ is None else round(x, nd_)


def p_enumerate(x, start=0):
    if active() and is_symbolic_iter(x):
        return EnumSeq(as_seq(x), start)
    return enumerate(x, start)


def p_zip(*xs, strict=False):
    if active() and any(is_symbolic_iter(x) for x in xs):
        ss = [as_seq(x) for x in xs]
        if any(s is None for s in ss):
            raise Unsupported('zip')
        z_ = ZipSeq(ss)
        if not is_sym(z_.n):
            return zip(*[[s.get(i) for i in range(z_.n)] for s in ss])
        if strict:
            for s in ss:
                if not nd.dim_eq(s.n, z_.n):
                    raise mark(ValueError('zip() arguments have different lengths'))
        return z_
    return zip(*xs, strict=strict)


def p_reversed(x):
    if active() and is_symbolic_iter(x):
        s = as_seq(x)
        return SliceSeq(s, sub(s.n, 1), s.n, -1)
    return reversed(x)


def p_sum(x, start=0):
    if active() and is_symbolic_iter(x):
        s = as_seq(x)
        return add(start, core.total(s.n, lambda i: s.get(i)))
    r = start
    for v in x:
        r = r + v
    return r


def p_any(x):
    if active() and is_symbolic_iter(x):
        s = as_seq(x)
        return core.exists(s.n, lambda i: nd.mkb(s.get(i)))
    return any(x)


def p_all(x):
    if active() and is_symbolic_iter(x):
        s = as_seq(x)
        return core.forall(s.n, lambda i: nd.mkb(s.get(i)))
    return all(x)


def p_sorted(x, key=None, reverse=False):
    if active() and is_symbolic_iter(x):
        s = as_seq(x)
        if reverse:
            raise Unsupported('sorted(reverse=True)')
        kf = key if key is not None else (lambda v: v)
        perm, inv = core.argsorted(s.n, lambda i: kf(s.get(i)))
        return SList.from_seq(PermSeq(s, perm))
    if active():
        items = list(x)
        ks = [key(v) if key is not None else v for v in items]
        if any(symbolic(v) for v in ks):
            # insertion sort with path splits (stable)
            out = []
            for v, k in zip(items, ks):
                pos = len(out)
                while pos > 0 and bool(compare('<', k, out[pos - 1][1]) if not reverse else compare('>', k, out[pos - 1][1])):
                    pos -= 1
                out.insert(pos, (v, k))
            return SList([v for v, _ in out])
        return SList(sorted(items, key=key, reverse=reverse))
    return sorted(x, key=key, reverse=reverse)


class PermSeq(Seq):
    def __init__(self, s, perm):
        self.s, self.perm, self.n = s, perm, s.n

    def get(self, i):
        return self.s.get(self.perm(i))

    def subst(self, pairs):
        raise Unsupported('substitution in a sorted sequence')

    def exprs(self, out):
        self.s.exprs(out)


def p_map(f, *xs):
    if active() and any(is_symbolic_iter(x) for x in xs):
        if len(xs) == 1:
            s = as_seq(xs[0])
            return SList.from_seq(s.n, lambda i: f(s.get(i)))
        s = ZipSeq([as_seq(x) for x in xs])
        return SList.from_seq(s.n, lambda i: f(*s.get(i)))
    return map(f, *xs)


def p_iter(x, *a):
    if active() and is_symbolic_iter(x):
        return x
    return iter(x, *a)


def p_getattr(o, name, *d):
    return getattr(o, name, *d)


def p_setattr(o, name, v):
    from . import rt
    rt.store_attr(o, name, v)


def p_hasattr(o, name):
    return hasattr(o, name)


class p_dict(metaclass=PMeta):
    _native = dict

    def __new__(cls, *a, **k):
        return dict(*a, **k)


def p_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return core.floordiv(a, b), core.mod(a, b)
    return divmod(a, b)


def p_pow(a, b, *m):
    if is_sym(a) or is_sym(b):
        return core.power(a, b)
    return pow(a, b, *m)


def p_filter(f, x):
    if active() and is_symbolic_iter(x):
        raise Unsupported('filter()')
    return filter(f, x)


TABLE = {'float': p_float, 'int': p_int, 'bool': p_bool, 'complex': p_complex, 'str': p_str, 'list': p_list,
         'tuple': p_tuple, 'isinstance': p_isinstance, 'len': p_len, 'range': p_range, 'min': p_min, 'max': p_max,
         'abs': p_abs, 'round': p_round, 'enumerate': p_enumerate, 'zip': p_zip, 'reversed': p_reversed,
         'sum': p_sum, 'any': p_any, 'all': p_all, 'sorted': p_sorted, 'map': p_map, 'iter': p_iter,
         'setattr': p_setattr, 'divmod': p_divmod, 'pow': p_pow, 'filter': p_filter}
