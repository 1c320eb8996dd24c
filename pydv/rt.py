"""Runtime called by instrumented modules."""
import operator
import z3
from . import core, nd, seq, loops
from .core import Unsupported, mark, eng, integer, is_sym, compare, boolean, conc, Sym
from .nd import Nd
from .seq import SList, Seq, as_seq, is_symbolic_iter, is_proxy, FamSeq
from .loops import loop, Ret, BRK
from .builtins_proxy import active, symbolic
from .npproxy import NP, NumpyProxy

import numpy as _np


def SL(items):
    return SList(items) if active() else items


class Touch:
    """A write to an attribute of an ordinary object or to a dict entry."""
    __slots__ = ('kind', 'obj', 'name')

    def __init__(self, kind, obj, name):
        self.kind, self.obj, self.name = kind, obj, name

    def key(self):
        return (self.kind, id(self.obj), self.name)


_MISSING = object()


def store_attr(o, name, v):
    if not active():
        setattr(o, name, v)
        return
    if is_proxy(o):
        t = getattr(o.__class__, name, None)
        if isinstance(t, property):
            if t.fset is None:
                raise mark(AttributeError(f"property '{name}' has no setter"))
            t.fset(o, v)
            return
        setattr(o, name, v)
        return
    E = eng()
    d = getattr(o, '__dict__', None)
    if d is not None and not d and id(o) not in E.births:
        E.serial += 1
        E.births[id(o)] = (o, E.serial)
    if E.depth and d is not None and not isinstance(o, type):
        old = d.get(name, _MISSING)

        def undo():
            if old is _MISSING:
                d.pop(name, None)
            else:
                d[name] = old
        b = E.births.get(id(o))
        E.log(undo, b[1] if b is not None and b[0] is o else None)
        E.touched.append(Touch('attr', o, name))
    try:
        setattr(o, name, v)
    except AttributeError as e:
        raise mark(e)


def store_item(o, k, v):
    if isinstance(o, dict):
        if active() and eng().depth:
            E = eng()
            old = o.get(k, _MISSING)

            def undo():
                if old is _MISSING:
                    o.pop(k, None)
                else:
                    o[k] = old
            E.log(undo)
            E.touched.append(Touch('item', o, k))
        o[k] = v
        return
    if active() and isinstance(o, _np.ndarray):
        if symbolic(k) or symbolic(v) or eng().depth:
            raise Unsupported('store into a native array')
    if active() and isinstance(o, list) and not isinstance(o, SList) and (eng().depth or symbolic(k)):
        raise Unsupported('store into a native list')
    try:
        o[k] = v
    except Exception as e:
        raise mark(e)


def del_item(o, k):
    if isinstance(o, dict):
        if active() and eng().depth:
            old = dict(o)

            def undo():
                o.clear()
                o.update(old)
            eng().log(undo)
            eng().touched.append(Touch('item', o, k))
        try:
            del o[k]
        except Exception as e:
            raise mark(e)
        return
    del o[k]


OPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
       'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow, 'BitAnd': operator.iand,
       'BitOr': operator.ior, 'BitXor': operator.ixor, 'MatMult': operator.imatmul,
       'LShift': operator.ilshift, 'RShift': operator.irshift}


def iop(op, a, b):
    return OPS[op](a, b)


def unpack(x, n):
    if active() and is_symbolic_iter(x):
        s = as_seq(x)
        if compare('==', s.n, n) is True or eng().branch(boolean(compare('==', s.n, n))):
            return tuple(s.get(i) for i in range(n))
        raise mark(ValueError('wrong number of values to unpack'))
    return x


def getitem(o, k):
    """Subscript read."""
    if not active():
        return o[k]
    k2 = conc(k) if isinstance(k, Sym) else k
    if isinstance(o, (list, tuple, range)) and not isinstance(o, SList) and is_sym(k2):
        return seq.ItemsSeq(o).getitem(k2)
    if isinstance(o, (Nd, SList, Seq)) or is_proxy(o) or seq.is_instance(o):
        return o[k]
    if isinstance(o, _np.ndarray) and symbolic(k):
        return nd.asarray(o)[k]
    try:
        return o[k]
    except (KeyError, IndexError, TypeError, ValueError) as e:
        raise mark(e)


def listcomp(it, f, cond=None, gen=False):
    if active():
        it = iter_of(it)
    if active() and is_symbolic_iter(it):
        s = as_seq(it)
        if not is_sym(s.n):
            it = [s.get(i) for i in range(s.n)]
        else:
            if cond is None:
                return loops.map_list(s, f)
            return loops.filter_list(s, f, cond)
    if gen:
        return (f(x) for x in it if cond is None or cond(x))
    r = [f(x) for x in it if cond is None or cond(x)]
    return SList(r) if active() else r


def dictcomp(it, kf, vf, cond=None):
    if active() and is_symbolic_iter(it):
        raise Unsupported('dict comprehension over a symbolic sequence')
    return {kf(x): vf(x) for x in it if cond is None or cond(x)}


def setcomp(it, f, cond=None):
    if active() and is_symbolic_iter(it):
        raise Unsupported('set comprehension over a symbolic sequence')
    return {f(x) for x in it if cond is None or cond(x)}


def iter_of(x):
    """Resolve objects iterated through __getitem__/__iter__ of instrumented classes."""
    return loops.iter_of(x)


def contains(o, x):
    """x in o"""
    if active() and isinstance(o, (list, tuple)) and not isinstance(o, SList) and symbolic([x, o]):
        for y in o:
            if y is x or bool(seq.eq_scalar(y, x)):
                return True
        return False
    return x in o
