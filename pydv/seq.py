"""Symbolic sequences, lists and families of objects."""
import z3
from . import core
from .core import (SInt, SFlt, SBool, Sym, SStr, Unsupported, mark, eng, integer, kind, is_sym, ite, add, sub,
                   mul, subst, conc, mkint, simp_int, compare, boolean)


def z(i):
    return integer(i)


# ---------------------------------------------------------------------------
# generic templates: substitute index constants in any value
# ---------------------------------------------------------------------------
def vsubst(v, pairs):
    """Substitute in any engine value (copying containers)."""
    from .nd import Nd, Cell
    if not pairs or v is None or isinstance(v, (str, bool, int, float, complex, type)):
        return v
    if isinstance(v, Sym):
        return subst(v, pairs)
    if isinstance(v, Nd):
        c = v.cell
        cell = Cell(c.vars, subst(c.val, pairs), tuple(subst(s, pairs) for s in c.shape), c.dtype)
        vm = [('fix', z3.substitute(m[1], *pairs)) if m[0] == 'fix' else
              ('aff', m[1], z3.substitute(m[2], *pairs), m[3]) for m in v.vmap]
        return Nd(cell, [subst(s, pairs) for s in v._shape], vm)
    if isinstance(v, Seq):
        return v.subst(pairs)
    if isinstance(v, SList):
        r = SList.__new__(SList)
        if v._sym is not None:
            list.__init__(r, [])
            r._sym = v._sym.subst(pairs)
        else:
            list.__init__(r, [vsubst(x, pairs) for x in list.__iter__(v)])
            r._sym = None
        r._serial = v._serial
        return r
    if isinstance(v, tuple):
        return tuple(vsubst(x, pairs) for x in v)
    if isinstance(v, list):
        return [vsubst(x, pairs) for x in v]
    if isinstance(v, dict):
        return {k: vsubst(x, pairs) for k, x in v.items()}
    if is_proxy(v):
        return v._pydv_fam.element(subst(v._pydv_idx, pairs))
    if is_instance(v):
        if not mentions(v, [p[0] for p in pairs]):
            return v
        o = v.__class__.__new__(v.__class__)
        for k, x in v.__dict__.items():
            object.__setattr__(o, k, vsubst(x, pairs))
        return o
    return v


def is_proxy(v):
    return hasattr(type(v), '_pydv_is_proxy')


def is_instance(v):
    return getattr(type(v), '_pydv_inst', False) and not is_proxy(v)


def exprs_in(v, out=None, depth=0):
    """All z3 expressions inside a value."""
    from .nd import Nd
    out = [] if out is None else out
    if isinstance(v, Sym):
        out.extend(core.exprs_of(v))
    elif isinstance(v, Nd):
        hide = list(v.cell.vars)
        hs = [z3.Int(f'hidden!{i}') for i in range(len(hide))]
        for e in core.exprs_of(v.cell.val):
            out.append(z3.substitute(e, *list(zip(hide, hs))) if hide else e)
        for s in v._shape:
            out.extend(core.exprs_of(s))
        for m in v.vmap:
            out.append(m[1] if m[0] == 'fix' else m[2])
    elif isinstance(v, Seq):
        v.exprs(out)
    elif isinstance(v, SList):
        if v._sym is not None:
            v._sym.exprs(out)
        else:
            for x in list.__iter__(v):
                exprs_in(x, out, depth + 1)
    elif isinstance(v, (tuple, list)):
        for x in v:
            exprs_in(x, out, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            exprs_in(x, out, depth + 1)
    elif is_proxy(v):
        out.extend(core.exprs_of(v._pydv_idx))
    elif is_instance(v) and depth < 6:
        for x in v.__dict__.values():
            exprs_in(x, out, depth + 1)
    return out


def mentions(v, consts):
    ids = {c.get_id() for c in consts}
    seen = set()
    todo = list(exprs_in(v))
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo.extend(e.children())
    return False


def newest(v, depth=0):
    """Largest creation serial of an array cell in a value."""
    from .nd import Nd
    if isinstance(v, Nd):
        return v.cell.serial
    if isinstance(v, SList):
        r = v._serial
        if v._sym is None:
            for x in list.__iter__(v):
                r = max(r, newest(x, depth + 1))
        return r
    if isinstance(v, (tuple, list)):
        return max([0] + [newest(x, depth + 1) for x in v])
    if is_instance(v) and depth < 6:
        return max([0] + [newest(x, depth + 1) for x in v.__dict__.values()])
    return 0


def merge(c, a, b):
    """If over arbitrary values."""
    from .nd import Nd, Cell
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    c = boolean(c) if not z3.is_expr(c) else c
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if core._operand(conc(a)) and core._operand(conc(b)):
        return ite(c, a, b)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        return a if (isinstance(a, str) and a == b and isinstance(b, str)) else ite(c, a if isinstance(a, SStr) else SStr(SStr.const(a)), b if isinstance(b, SStr) else SStr(SStr.const(b)))
    if isinstance(a, Nd) and isinstance(b, Nd):
        if a.ndim != b.ndim:
            raise Unsupported('merge of arrays of different rank')
        shape = [ite(c, p, q) for p, q in zip(a._shape, b._shape)]
        return Nd.make(shape, lambda *i: ite(c, a.at(*i), b.at(*i)))
    if is_proxy(a) and is_proxy(b) and a._pydv_fam is b._pydv_fam:
        return a._pydv_fam.element(ite(c, a._pydv_idx, b._pydv_idx))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if is_instance(a) and is_instance(b) and type(a) is type(b) and set(a.__dict__) == set(b.__dict__):
        o = type(a).__new__(type(a))
        for k in a.__dict__:
            object.__setattr__(o, k, merge(c, a.__dict__[k], b.__dict__[k]))
        return o
    try:
        if a is b or (not isinstance(a, (Nd, Sym)) and type(a) is type(b) and a == b):
            return a
    except Exception:
        pass
    raise Unsupported(f'merge of {type(a).__name__} and {type(b).__name__}')


# ---------------------------------------------------------------------------
# sequences (immutable descriptions)
# ---------------------------------------------------------------------------
class Seq:
    """n elements; get(i) without bounds check."""
    n = 0

    def get(self, i):
        raise NotImplementedError

    def exprs(self, out):
        exprs_in(self.n, out)

    def sym_len(self):
        return self.n

    def __len__(self):
        if is_sym(self.n):
            raise Unsupported('native len of a symbolic sequence')
        return self.n

    def __iter__(self):
        if is_sym(self.n):
            raise Unsupported('native iteration over a symbolic sequence')
        for i in range(self.n):
            yield self.get(i)

    def getitem(self, key):
        if isinstance(key, slice):
            from .nd import slice_bounds
            st, ln, step = slice_bounds(key, self.n)
            return slice_seq(self, st, ln, step)
        return self.get(norm_index(key, self.n))

    def __getitem__(self, key):
        return self.getitem(key)


def norm_index(i, n):
    i = conc(i)
    if kind(i) == 'b':
        i = mkint(integer(i))
    if kind(i) != 'i':
        raise mark(TypeError('list indices must be integers or slices'))
    if not is_sym(i) and not is_sym(n):
        if not -n <= i < n:
            raise mark(IndexError('list index out of range'))
        return i + n if i < 0 else i
    e, m = z(i), z(n)
    E = eng()
    if E.branch(z3.And(e >= 0, e < m)):
        return i
    if E.branch(z3.And(e < 0, e >= -m)):
        return simp_int(e + m)
    raise mark(IndexError('list index out of range'))


class ItemsSeq(Seq):
    def __init__(self, items):
        self.items = list(items)
        self.n = len(self.items)

    def get(self, i):
        if not is_sym(i):
            return self.items[i]
        e = z3.simplify(z(i))
        if z3.is_int_value(e):
            return self.items[e.as_long()]
        r = self.items[-1]
        for j in range(self.n - 2, -1, -1):
            r = merge(e == j, self.items[j], r)
        return r

    def subst(self, pairs):
        return ItemsSeq([vsubst(x, pairs) for x in self.items])

    def exprs(self, out):
        for x in self.items:
            exprs_in(x, out)


class TmplSeq(Seq):
    """get(i) = value[var := i]"""

    def __init__(self, n, var, value):
        self.n, self.var, self.value = n, var, value

    def get(self, i):
        return vsubst(self.value, [(self.var, z(i))])

    def subst(self, pairs):
        return TmplSeq(subst(self.n, pairs), self.var, vsubst(self.value, pairs))

    def exprs(self, out):
        exprs_in(self.n, out)
        h = z3.Int('hidden!0')
        for e in exprs_in(self.value):
            out.append(z3.substitute(e, (self.var, h)))


class FamSeq(Seq):
    def __init__(self, fam):
        self.fam, self.n = fam, fam.n

    def get(self, i):
        return self.fam.element(i)

    def subst(self, pairs):
        raise Unsupported('substitution in an object family')

    def exprs(self, out):
        exprs_in(self.n, out)
        self.fam.exprs(out)


class SymRange(Seq):
    def __init__(self, start, stop, step=1):
        self.start, self.step = start, step
        if not is_sym(step) and step == 0:
            raise mark(ValueError('range() arg 3 must not be zero'))
        if not is_sym(step) and step == 1:
            e = z3.simplify(z(stop) - z(start))
            self.n = mkint(e)
            if is_sym(self.n):
                if not eng().branch(e >= 0):
                    self.n = 0
            else:
                self.n = max(0, self.n)
        else:
            if is_sym(step):
                if not eng().branch(z(step) > 0):
                    raise Unsupported('range with a non-positive symbolic step')
            elif step < 0:
                # number of elements of a descending range
                e = z3.simplify((z(start) - z(stop) + (-step - 1)) / (-step))
                self.n = mkint(e)
                if is_sym(self.n):
                    if not eng().branch(e >= 0):
                        self.n = 0
                else:
                    self.n = max(0, self.n)
                return
            d = z3.simplify(z(stop) - z(start))
            if not eng().branch(d > 0):
                self.n = 0
            else:
                self.n = mkint(z3.simplify((d + (z(step) - 1)) / z(step)))

    def get(self, i):
        return add(self.start, mul(i, self.step))

    def subst(self, pairs):
        r = SymRange.__new__(SymRange)
        r.start, r.step, r.n = subst(self.start, pairs), subst(self.step, pairs), subst(self.n, pairs)
        return r

    def exprs(self, out):
        for x in (self.n, self.start, self.step):
            exprs_in(x, out)


class SliceSeq(Seq):
    def __init__(self, seq, start, n, step):
        self.seq, self.start, self.n, self.step = seq, start, n, step

    def get(self, i):
        return self.seq.get(add(self.start, mul(i, self.step)))

    def subst(self, pairs):
        return SliceSeq(self.seq.subst(pairs), subst(self.start, pairs), subst(self.n, pairs), self.step)

    def exprs(self, out):
        for x in (self.n, self.start):
            exprs_in(x, out)
        self.seq.exprs(out)


def slice_seq(s, start, n, step):
    """A slice; one of a concatenation is a concatenation of slices where the
    place of the seam is decided."""
    if isinstance(s, ConcatSeq) and not is_sym(step) and step == 1:
        E = eng()
        na = s.a.n

        def holds(t):
            t = z3.simplify(t)
            return z3.is_true(t) or (not z3.is_false(t) and E.known(t) is True)
        end = add(start, n)
        if holds(integer(end) <= integer(na)):
            return slice_seq(s.a, start, n, 1)
        if holds(integer(start) >= integer(na)):
            return slice_seq(s.b, sub(start, na), n, 1)
        if holds(z3.And(integer(start) <= integer(na), integer(end) >= integer(na))):
            return ConcatSeq(slice_seq(s.a, start, sub(na, start), 1), slice_seq(s.b, 0, sub(end, na), 1))
    if not is_sym(start) and not is_sym(step) and start == 0 and step == 1 and z3.eq(z3.simplify(z(n)), z3.simplify(z(s.n))):
        return s
    return SliceSeq(s, start, n, step)


class ConcatSeq(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.n = add(a.n, b.n)

    def get(self, i):
        na = self.a.n
        if not is_sym(i) and not is_sym(na):
            return self.a.get(i) if i < na else self.b.get(i - na)
        if eng().branch(z(i) < z(na)):
            return self.a.get(i)
        return self.b.get(sub(i, na))

    def subst(self, pairs):
        return ConcatSeq(self.a.subst(pairs), self.b.subst(pairs))

    def exprs(self, out):
        self.a.exprs(out)
        self.b.exprs(out)


class ZipSeq(Seq):
    def __init__(self, seqs):
        self.seqs = seqs
        n = seqs[0].n
        for s in seqs[1:]:
            if not is_sym(n) and not is_sym(s.n):
                n = min(n, s.n)
                continue
            a, b = z3.simplify(z(n)), z3.simplify(z(s.n))
            if a.eq(b):
                continue
            if eng().branch(a <= b):
                continue
            n = s.n
        self.n = n

    def get(self, i):
        return tuple(s.get(i) for s in self.seqs)

    def subst(self, pairs):
        r = ZipSeq.__new__(ZipSeq)
        r.seqs, r.n = [s.subst(pairs) for s in self.seqs], subst(self.n, pairs)
        return r

    def exprs(self, out):
        exprs_in(self.n, out)
        for s in self.seqs:
            s.exprs(out)


class EnumSeq(ZipSeq):
    def __init__(self, seq, start=0):
        self.seq, self.start = seq, start
        self.n = seq.n

    def get(self, i):
        return (add(i, self.start) if not (not is_sym(self.start) and self.start == 0) else i, self.seq.get(i))

    def subst(self, pairs):
        return EnumSeq(self.seq.subst(pairs), subst(self.start, pairs))

    def exprs(self, out):
        self.seq.exprs(out)


class RowsSeq(Seq):
    def __init__(self, nd):
        self.nd, self.n = nd, nd.sym_len()

    def get(self, i):
        return self.nd.seq_get(i)

    def subst(self, pairs):
        return RowsSeq(vsubst(self.nd, pairs))

    def exprs(self, out):
        exprs_in(self.nd, out)


def as_seq(x):
    """A Seq for anything iterable of symbolic length, else None."""
    from .nd import Nd
    if isinstance(x, Seq):
        return x
    if isinstance(x, SList):
        return x._sym if x._sym is not None else ItemsSeq(list.__iter__(x))
    if isinstance(x, Nd):
        return RowsSeq(x)
    if hasattr(x, '__getitem__') and is_instance(x) and not hasattr(type(x), '__iter__'):
        # old-style iteration over an object with __getitem__: its members
        for v in x.__dict__.values():
            if isinstance(v, SList) and v._sym is not None:
                k = SInt(eng().index_var('g'))
                raise Unsupported('iteration through __getitem__ of a symbolic container')
    if isinstance(x, (list, tuple, range)):
        return ItemsSeq(x)
    return None


def is_symbolic_iter(x):
    from .nd import Nd
    if isinstance(x, Seq):
        return is_sym(x.n)
    if isinstance(x, SList):
        return x.is_symbolic()
    if isinstance(x, Nd):
        return bool(x.shape) and is_sym(x.shape[0])
    return False


def as_index_array(k):
    """Convert an index to an Nd if it is a sequence; scalars/slices as is."""
    from .nd import Nd, asarray
    import numpy as np
    if isinstance(k, (list, Seq, range, np.ndarray)):
        return asarray(k)
    if isinstance(k, Nd) and k.ndim == 0:
        return k.at()
    return k


# ---------------------------------------------------------------------------
# lists
# ---------------------------------------------------------------------------
class SList(list):
    """A list; `_sym` is None (ordinary list) or a Seq of symbolic length."""

    def __init__(self, it=()):
        super().__init__(it)
        self._sym = None
        self._serial = 0
        if core.ENG is not None:
            core.ENG.serial += 1
            self._serial = core.ENG.serial

    @classmethod
    def from_seq(cls, n, fn=None):
        r = cls()
        seq = n if isinstance(n, Seq) else None
        if seq is None:
            if not is_sym(n):
                list.extend(r, [fn(i) for i in range(n)])
                return r
            v = eng().index_var('l')
            eng_paths = core.explore(lambda: fn(SInt(v)), [z3.And(v >= 0, v < z(n))])
            val = core.cover(eng_paths, lambda p: p.value, merge)
            seq = TmplSeq(n, v, val)
        if not is_sym(seq.n):
            list.extend(r, [seq.get(i) for i in range(seq.n)])
            return r
        r._sym = seq
        return r

    def is_symbolic(self):
        return self._sym is not None

    def content(self):
        return self._sym if self._sym is not None else ItemsSeq(list.__iter__(self))

    def set_content(self, seq):
        E = core.ENG
        if E is not None:
            old_sym, old = self._sym, list(list.__iter__(self))

            def undo():
                self._sym = old_sym
                list.__init__(self, old)
            E.log(undo, self._serial)
            if E.depth:
                E.touched.append(self)
        if seq is None or isinstance(seq, list):
            self._sym = None
            list.__init__(self, seq or [])
        elif isinstance(seq, ItemsSeq):
            self._sym = None
            list.__init__(self, seq.items)
        else:
            self._sym = seq
            list.__init__(self, [])

    def sym_len(self):
        return self._sym.n if self._sym is not None else list.__len__(self)

    def sym_get(self, i):
        return self.content().get(i)

    def __len__(self):
        if self._sym is not None:
            raise Unsupported('native len of a symbolic list')
        return list.__len__(self)

    def __bool__(self):
        if self._sym is not None:
            return eng().branch(z(self._sym.n) > 0)
        return list.__len__(self) > 0

    def __iter__(self):
        if self._sym is not None:
            raise Unsupported('native iteration over a symbolic list')
        return list.__iter__(self)

    def __getitem__(self, k):
        if self._sym is None and not isinstance(k, slice) and is_sym(conc(k)):
            return self.content().getitem(k)
        if self._sym is not None:
            r = self._sym.getitem(k)
            if isinstance(k, slice):
                return SList.from_seq(r)
            return r
        if isinstance(k, slice):
            if any(is_sym(x) for x in (k.start, k.stop, k.step)):
                return SList.from_seq(self.content().getitem(k))
            return SList(list.__getitem__(self, k))
        return list.__getitem__(self, conc(k))

    def __setitem__(self, k, v):
        if self._sym is not None:
            i = norm_index(k, self._sym.n)
            seq = self._sym
            var = eng().index_var('l')
            val = merge(var == z(i), v, seq.get(SInt(var)))
            self.set_content(TmplSeq(seq.n, var, val))
            return
        if isinstance(k, slice):
            items = list(list.__iter__(self))
            items[k] = list(v)
            self.set_content(items)
            return
        items = list(list.__iter__(self))
        if is_sym(k):
            i = norm_index(k, len(items))
            items = [merge(z(i) == j, v, x) for j, x in enumerate(items)]
        else:
            items[k] = v
        self.set_content(items)

    def __delitem__(self, k):
        if self._sym is not None or is_sym(k):
            raise Unsupported('del on a symbolic list')
        items = list(list.__iter__(self))
        del items[k]
        self.set_content(items)

    def append(self, x):
        if self._sym is None:
            E = core.ENG
            if E is None or not E.depth:
                list.append(self, x)
                return
            items = list(list.__iter__(self))
            items.append(x)
            self.set_content(items)
            return
        self.set_content(ConcatSeq(self._sym, ItemsSeq([x])))

    def extend(self, it):
        if self._sym is None and not is_symbolic_iter(it):
            items = list(list.__iter__(self)) + list(it)
            self.set_content(items)
            return
        s = as_seq(it)
        if s is None:
            raise Unsupported('extend')
        if not is_sym(self.sym_len()) and self.sym_len() == 0:
            self.set_content(s)
        else:
            self.set_content(ConcatSeq(self.content(), s))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = SList()
        r.set_content(self.content())
        r.extend(o)
        return r

    def __radd__(self, o):
        r = SList(o)
        r.extend(self)
        return r

    def __mul__(self, k):
        if self._sym is None and not is_sym(k):
            return SList(list(list.__iter__(self)) * k)
        if self._sym is None and list.__len__(self) == 1:
            x = list.__getitem__(self, 0)
            return SList.from_seq(TmplSeq(k if not eng().branch(z(k) < 0) else 0, eng().index_var('l'), x))
        raise Unsupported('list repetition')

    __rmul__ = __mul__

    def __contains__(self, x):
        if self._sym is None:
            for y in list.__iter__(self):
                if y is x or bool(y == x):
                    return True
            return False
        from .core import exists
        return bool(exists(self._sym.n, lambda i: eq_scalar(self._sym.get(i), x)))

    def index(self, x, *a):
        if self._sym is None and not is_sym(x):
            return list.index(self, x, *a)
        s = self.content()
        q = core.forall(s.n, lambda i: core.lnot(eq_scalar(s.get(i), x)))
        if q is True or eng().branch(boolean(q)):
            raise mark(ValueError('not in list'))
        if isinstance(q, SBool) and not isinstance(self, ItemsSeq):
            return core.forall_witness(q)
        raise Unsupported('list.index')

    def pop(self, *a):
        if self._sym is not None:
            raise Unsupported('pop on a symbolic list')
        items = list(list.__iter__(self))
        r = items.pop(*a)
        self.set_content(items)
        return r

    def insert(self, i, x):
        if self._sym is not None:
            if not is_sym(i) and i == 0:
                self.set_content(ConcatSeq(ItemsSeq([x]), self._sym))
                return
            raise Unsupported('insert on a symbolic list')
        items = list(list.__iter__(self))
        items.insert(i, x)
        self.set_content(items)

    def remove(self, x):
        if self._sym is not None:
            raise Unsupported('remove on a symbolic list')
        items = list(list.__iter__(self))
        items.remove(x)
        self.set_content(items)

    def clear(self):
        self.set_content([])

    def copy(self):
        r = SList()
        r.set_content(self.content())
        return r

    def reverse(self):
        s = self.content()
        self.set_content(SliceSeq(s, sub(s.n, 1), s.n, -1) if self._sym is not None else list(reversed(s.items)))

    def sort(self, key=None, reverse=False):
        from .builtins_proxy import p_sorted
        self.set_content(p_sorted(self, key=key, reverse=reverse).content())

    def __eq__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        if self._sym is None and not (isinstance(o, SList) and o._sym is not None):
            a, b = list(list.__iter__(self)), list(list.__iter__(o))
            if len(a) != len(b):
                return False
            return all(bool(x == y) for x, y in zip(a, b))
        a, b = as_seq(self), as_seq(o)
        if not bool(compare('==', a.n, b.n)):
            return False
        return bool(core.forall(a.n, lambda i: eq_scalar(a.get(i), b.get(i))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '<symbolic list>' if self._sym is not None else list.__repr__(self)
    __str__ = __repr__

    def __reversed__(self):
        if self._sym is not None:
            s = self._sym
            return SliceSeq(s, sub(s.n, 1), s.n, -1)
        return list.__reversed__(self)


def eq_scalar(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return core.land(*[eq_scalar(x, y) for x, y in zip(a, b)])
    if (core._operand(conc(a)) or isinstance(a, (SStr, str))) and (core._operand(conc(b)) or isinstance(b, (SStr, str))):
        if isinstance(a, SStr) or isinstance(b, SStr):
            return compare('==', a, b)
        if isinstance(a, str) or isinstance(b, str):
            return type(a) is type(b) and a == b
        return compare('==', a, b)
    if a is None or b is None:
        return a is b
    r = (a == b)
    return r


# ---------------------------------------------------------------------------
# families of objects
# ---------------------------------------------------------------------------
_proxy_classes = {}


def proxy_class(cls):
    p = _proxy_classes.get(cls)
    if p is None:
        def __getattr__(self, name):
            fam = object.__getattribute__(self, '_pydv_fam')
            if name in fam.fields:
                return fam.get(name, self._pydv_idx)
            raise AttributeError(f"'{cls.__name__}' object has no attribute '{name}'")

        def __setattr__(self, name, value):
            self._pydv_fam.set(name, self._pydv_idx, value)

        def __getattribute__(self, name):
            if name == '__class__':
                return cls
            if name == '__dict__':
                fam = object.__getattribute__(self, '_pydv_fam')
                return {k: fam.get(k, object.__getattribute__(self, '_pydv_idx')) for k in fam.fields}
            return object.__getattribute__(self, name)
        p = type(cls.__name__, (cls,), {'_pydv_is_proxy': True, '__getattr__': __getattr__,
                                        '__setattr__': __setattr__, '__getattribute__': __getattribute__,
                                        '__module__': cls.__module__, '__qualname__': cls.__qualname__})
        _proxy_classes[cls] = p
    return p


class Field:
    """kind: 'val' scalar cell over (k,), 'nd' array cell over (k, dims...),
    'obj' nested family, 'const' a shared value, 'tmpl' immutable template,
    'ref' element of another family."""
    __slots__ = ('kind', 'cell', 'dims', 'value', 'var', 'wlog', 'dtype', 'serial')

    def __init__(self, kind, cell=None, dims=None, value=None, var=None, dtype=None):
        self.kind, self.cell, self.dims, self.value, self.var, self.dtype = kind, cell, dims, value, var, dtype
        self.wlog = None
        E = eng()
        E.serial += 1
        self.serial = E.serial


class Family:
    """n objects of one class, stored field by field over an index."""

    def __init__(self, n, cls, fields):
        self.n, self.cls, self.fields = n, cls, fields
        E = eng()
        E.serial += 1
        self.serial = E.serial
        self._elements = {}

    def exprs(self, out):
        exprs_in(self.n, out)

    def element(self, i):
        i = conc(i)
        key = ('c', i) if not is_sym(i) else ('s', z3.simplify(i.e).get_id())
        got = self._elements.get(key)
        if got is not None:
            return got[0]
        o = object.__new__(proxy_class(self.cls))
        object.__setattr__(o, '_pydv_fam', self)
        object.__setattr__(o, '_pydv_idx', i)
        self._elements[key] = (o, z3.simplify(i.e) if is_sym(i) else None)
        return o

    def get(self, name, i):
        from .nd import Nd
        f = self.fields[name]
        if f.kind == 'val':
            return f.cell.read([z(i)])
        if f.kind == 'nd':
            shape = [c.read([z(i)]) for c in f.dims]
            return Nd(f.cell, shape, [('fix', z3.simplify(z(i)))] + [('aff', d, z3.IntVal(0), 1) for d in range(len(shape))])
        if f.kind == 'obj':
            return f.value.element(i)
        if f.kind == 'const':
            return f.value
        if f.kind == 'tmpl':
            return vsubst(f.value, [(f.var, z(i))])
        raise Unsupported('field kind')

    def set(self, name, i, value):
        from .nd import Nd, Cell
        f = self.fields.get(name)
        if f is None:
            # a new attribute, defined for the written element only
            raise Unsupported(f'new attribute {name} on a member of a family')
        if f.kind == 'const' and f.value is value:
            return
        value = conc(value)
        if f.kind == 'val' and (core._operand(value) or isinstance(value, SStr)):
            v = f.cell.vars[0]
            c = z3.simplify(v == z(i))
            f.cell.set(ite(c, value, f.cell.val), (c, value))
            return
        if f.kind == 'nd' and isinstance(value, Nd) and value.ndim == len(f.dims):
            if value.cell is f.cell:
                own = self.get(name, i)
                if all(_vm_eq(a, b) for a, b in zip(own.vmap, value.vmap)) and \
                        all(z3.simplify(z(a)).eq(z3.simplify(z(b))) for a, b in zip(own._shape, value._shape)):
                    return
            old = f.cell
            v = old.vars[0]
            c = z3.simplify(v == z(i))
            new_val = value.at(*[SInt(x) for x in old.vars[1:]])
            cell = Cell(old.vars, ite(c, new_val, old.val), old.shape, 'O')
            cell.wlog = old.wlog
            newdims = []
            for d, s in zip(f.dims, value._shape):
                nc = Cell(d.vars, d.val, d.shape, d.dtype)
                nc.val = ite(z3.simplify(d.vars[0] == z(i)), s, d.val)
                newdims.append(nc)
            E = eng()
            oldstate = (f.cell, f.dims, f.wlog)
            was_frozen = old.frozen

            def undo():
                f.cell, f.dims, f.wlog = oldstate
                old.frozen = was_frozen
            E.log(undo)
            old.frozen = True
            value_cell = value.cell
            if E.depth:
                E.touched.append(f)
                f.wlog = (f.wlog or []) + [(c, new_val, [z(s) for s in value._shape], old.vars)]
            f.cell, f.dims = cell, newdims
            # the assigned array is copied: later in-place writes through the
            # other name would be lost, so they are refused
            if value_cell is not cell and not value_cell.frozen:
                vc = value_cell
                E.log(lambda: setattr(vc, 'frozen', False))
                value_cell.frozen = True
            return
        if f.kind == 'const' and (core._operand(value) and core._operand(conc(f.value))):
            cell = Cell((eng().index_var('k'),), f.value, (self.n,), 'O')
            self._convert(name, Field('val', cell))
            return self.set(name, i, value)
        if f.kind == 'const' and isinstance(f.value, (str, SStr)) and isinstance(value, (str, SStr)):
            cell = Cell((eng().index_var('k'),), SStr(SStr.of(f.value)), (self.n,), 'O')
            self._convert(name, Field('val', cell))
            return self.set(name, i, value if isinstance(value, SStr) else SStr(SStr.const(value)))
        raise Unsupported(f'assignment of {type(value).__name__} to field {name} ({f.kind})')

    def _convert(self, name, field):
        old = self.fields[name]
        E = eng()
        E.log(lambda: self.fields.__setitem__(name, old))
        self.fields[name] = field


def _vm_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'fix':
        return z3.simplify(a[1] - b[1]).eq(z3.IntVal(0))
    return a[1] == b[1] and a[3] == b[3] and z3.simplify(a[2] - b[2]).eq(z3.IntVal(0))


def generalise(obj, k, n, since=0):
    """Family whose element at k is (a copy of) obj; obj mentions const k."""
    from .nd import Nd, Cell
    fields = {}
    for name, val in obj.__dict__.items():
        fields[name] = _gen_field(val, k, n, since)
    return Family(n, type(obj) if not is_proxy(obj) else obj.__class__, fields)


def _gen_field(val, k, n, since):
    from .nd import Nd, Cell
    val = conc(val)
    v = eng().index_var('k')
    if core._operand(val) or isinstance(val, SStr):
        return Field('val', Cell((v,), subst(val, [(k, v)]), (n,), 'O'))
    if isinstance(val, Nd):
        vs = tuple(eng().index_var('d') for _ in val._shape)
        t = val.at(*vs)
        cell = Cell((v,) + vs, subst(t, [(k, v)]), (n,) + tuple(0 for _ in vs), 'O')
        cell.dtype = val.dt
        dims = []
        for s in val._shape:
            dv = eng().index_var('k')
            dims.append(Cell((dv,), subst(s, [(k, dv)]), (n,), 'O'))
        return Field('nd', cell, dims)
    if is_instance(val) and (mentions(val, [k]) or newest(val) > since):
        return Field('obj', value=generalise(val, k, n, since))
    if mentions(val, [k]):
        return Field('tmpl', value=val, var=k)
    return Field('const', value=val)


def seq_of(value, k, n, since=0):
    """Seq of n elements whose element at index k is `value` (mentions k)."""
    if is_instance(value):
        if not mentions(value, [k]) and newest(value) <= since:
            return TmplSeq(n, k, value)
        return FamSeq(generalise(value, k, n, since))
    from .nd import Nd
    if isinstance(value, Nd) and (value.cell.serial > since):
        f = _gen_field(value, k, n, since)
        return NdFamSeq(n, f)
    v = eng().index_var('e')
    return TmplSeq(n, v, vsubst(value, [(k, v)]))


class NdFamSeq(Seq):
    """A list of distinct arrays."""

    def __init__(self, n, field):
        self.n, self.field = n, field

    def get(self, i):
        from .nd import Nd
        f = self.field
        shape = [c.read([z(i)]) for c in f.dims]
        return Nd(f.cell, shape, [('fix', z3.simplify(z(i)))] + [('aff', d, z3.IntVal(0), 1) for d in range(len(shape))])

    def subst(self, pairs):
        raise Unsupported('substitution in a list of arrays')

    def exprs(self, out):
        exprs_in(self.n, out)
