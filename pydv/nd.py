"""Symbolic ndarrays (any length, views, in-place writes) and the numpy proxy."""
import numpy as _np
import z3
from . import core
from .core import (SInt, SFlt, SBool, SCpx, SStr, Unsupported, mark, eng, integer, real, boolean, kind,
                   is_sym, ite, add, sub, mul, div, neg, compare, subst, conc, mkint, simp_int, land, lor,
                   lnot, nanflag, nanB, mkbool)

DT = {'f': 'f', 'i': 'i', 'b': 'b', 'c': 'c'}


def dtype_of(dt):
    if dt is None:
        return None
    if dt in (float, _np.double, _np.float64, 'f', 'float'):
        return 'f'
    if dt in (int, _np.int64, _np.intp, _np.int32, 'i', 'int'):
        return 'i'
    if dt in (bool, _np.bool_, 'b', 'bool'):
        return 'b'
    if dt in (complex, _np.complex128, 'c', 'complex'):
        return 'c'
    if dt in (_np.float32,):
        return 'f32'
    from .builtins_proxy import unproxy_type
    t = unproxy_type(dt)
    if t is not dt:
        return dtype_of(t)
    if isinstance(dt, _np.dtype):
        return {'f': 'f' if dt.itemsize == 8 else 'f32', 'i': 'i', 'b': 'b', 'c': 'c', 'u': 'i'}.get(dt.kind) or _bad(dt)
    raise Unsupported(f'dtype {dt}')


def _bad(dt):
    raise Unsupported(f'dtype {dt}')


def cast(x, dt):
    """Cast a scalar to a dtype (numpy astype semantics)."""
    if dt is None or dt == 'O':
        return x
    k = kind(x)
    if dt == 'f32':
        if is_sym(x):
            return core.ufun('f32', SFlt(real(x), nanflag(x)))
        return float(_np.float32(x))
    if k == dt:
        return x
    if dt == 'f':
        if k == 'c':
            raise Unsupported('complex to float')
        if is_sym(x):
            return SFlt(real(x), nanflag(x))
        return float(x)
    if dt == 'i':
        if k == 'b':
            return mkint(integer(x)) if is_sym(x) else int(x)
        if k == 'f':
            if is_sym(x):
                # undefined values convert to an unspecified integer
                return core.trunc_e(x.e)
            if x != x or x in (float('inf'), float('-inf')):
                raise Unsupported('non-finite to integer')
            return int(x)
        raise Unsupported('cast to int')
    if dt == 'b':
        if is_sym(x):
            return mkbool(z3.simplify(boolean(x)))
        return bool(x)
    if dt == 'c':
        if is_sym(x):
            return core.cpx(x)
        return complex(x)
    raise Unsupported(f'cast to {dt}')


class Cell:
    """Storage of an array: content is a scalar template over index vars."""
    __slots__ = ('vars', 'val', 'shape', 'dtype', 'frozen', 'wlog', 'name', 'serial')

    def __init__(self, vars, val, shape, dtype):
        self.vars, self.val, self.shape, self.dtype = vars, val, shape, dtype
        self.frozen = False
        self.wlog = None
        self.name = None
        E = eng()
        E.serial += 1
        self.serial = E.serial

    def read(self, idx):
        return subst(self.val, list(zip(self.vars, idx)))

    def set(self, val, write=None):
        if self.frozen:
            raise Unsupported('write to an array whose storage was rebound')
        old = (self.val, list(self.wlog) if self.wlog is not None else None)

        def undo():
            self.val, self.wlog = old
        E = eng()
        E.log(undo, self.serial)
        if E.depth:
            if self.wlog is None:
                self.wlog = []
            self.wlog.append(write)
            E.touched.append(self)
        self.val = val


def z(i):
    return integer(i)


def fresh_vars(n):
    return tuple(eng().index_var('a') for _ in range(n))


def promote(*ks):
    order = 'bifc'
    ks = ['f' if k == 'f32' else k for k in ks]
    if 'O' in ks or 's' in ks:
        return 'O'
    return max(ks, key=order.index)


def dim_eq(a, b):
    """Are two dimensions equal (branching if unknown)?"""
    if not is_sym(a) and not is_sym(b):
        return a == b
    ea, eb = z3.simplify(z(a)), z3.simplify(z(b))
    if ea.eq(eb):
        return True
    return eng().branch(ea == eb)


def known_one(a):
    return (not is_sym(a)) and a == 1


def broadcast_shapes(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            x = s[k]
            if known_one(x):
                continue
            if known_one(cur):
                cur = x
                continue
            if dim_eq(cur, x):
                if is_sym(cur) and not is_sym(x):
                    cur = x
                continue
            if is_sym(x) and eng().branch(z(x) == 1):
                continue
            if is_sym(cur) and eng().branch(z(cur) == 1):
                cur = x
                continue
            raise mark(ValueError('operands could not be broadcast together'))
        out.append(cur)
    return tuple(out)


class Nd:
    """A view (possibly the whole) of a cell."""
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, cell, shape, vmap):
        self.cell, self._shape, self.vmap = cell, tuple(shape), tuple(vmap)

    # -- construction -------------------------------------------------------
    @staticmethod
    def make(shape, fn, dtype=None):
        shape = tuple(mkint(z3.simplify(s.e)) if is_sym(s) else int(s) for s in shape)
        vs = fresh_vars(len(shape))
        val = core.body(fn, vs, [z(s) for s in shape])
        if dtype is None:
            dtype = kind(val)
        else:
            val = cast(val, dtype)
        return Nd(Cell(vs, val, shape, 'f' if dtype == 'f32' else dtype), shape,
                  [('aff', d, z3.IntVal(0), 1) for d in range(len(shape))])

    def base_index(self, idx):
        out = []
        for m in self.vmap:
            if m[0] == 'fix':
                out.append(m[1])
            else:
                _, d, st, step = m
                e = z(idx[d])
                if step != 1:
                    e = e * step
                out.append(e if (z3.is_int_value(st) and st.as_long() == 0) else st + e)
        return out

    def at(self, *idx):
        """Element at (unchecked) view indices."""
        return self.cell.read(self.base_index(idx))

    # -- attributes ---------------------------------------------------------
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return {'f': _np.dtype(float), 'i': _np.dtype(int), 'b': _np.dtype(bool), 'c': _np.dtype(complex)}[self.cell.dtype]

    @property
    def dt(self):
        return self.cell.dtype

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = mul(r, s)
        return r

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return emap(lambda x: core.SFlt(core.cpx(x).re) if kind(x) == 'c' else x, self)

    @property
    def imag(self):
        return emap(lambda x: core.SFlt(core.cpx(x).im) if kind(x) == 'c' else 0.0, self)

    def transpose(self, *axes):
        n = self.ndim
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(n)))
        inv = {old: new for new, old in enumerate(axes)}
        vm = [m if m[0] == 'fix' else ('aff', inv[m[1]], m[2], m[3]) for m in self.vmap]
        return Nd(self.cell, [self._shape[a] for a in axes], vm)

    def __len__(self):
        if not self._shape:
            raise mark(TypeError('len() of unsized object'))
        s = self._shape[0]
        if is_sym(s):
            raise Unsupported('native len of a symbolic array')
        return s

    def sym_len(self):
        if not self._shape:
            raise mark(TypeError('len() of unsized object'))
        return self._shape[0]

    def __iter__(self):
        if not self._shape:
            raise mark(TypeError('iteration over a 0-d array'))
        n = self._shape[0]
        if is_sym(n):
            raise Unsupported('native iteration over a symbolic array')
        for i in range(n):
            yield self[i]

    def seq_get(self, i):
        """row i, no bounds check"""
        return self._drop_dim(i)

    def _drop_dim(self, i):
        if len(self._shape) == 1:
            return self.at(i)
        vm = []
        for m in self.vmap:
            if m[0] == 'fix':
                vm.append(m)
            elif m[1] == 0:
                vm.append(('fix', z3.simplify(m[2] + z(i) * m[3])))
            else:
                vm.append(('aff', m[1] - 1, m[2], m[3]))
        return Nd(self.cell, self._shape[1:], vm)

    # -- indexing -------------------------------------------------------------
    def _norm_scalar(self, i, n):
        """numpy scalar index: wraps negatives, IndexError out of bounds."""
        if kind(i) == 'b':
            raise Unsupported('boolean scalar index')
        if kind(i) != 'i':
            raise mark(IndexError('only integers ... are valid indices'))
        if not is_sym(i) and not is_sym(n):
            if not -n <= i < n:
                raise mark(IndexError('index out of bounds'))
            return i + n if i < 0 else i
        e, m = z(i), z(n)
        E = eng()
        if E.branch(z3.And(e >= 0, e < m)):
            return i
        if E.branch(z3.And(e < 0, e >= -m)):
            return simp_int(e + m)
        raise mark(IndexError('index out of bounds'))

    def _expand(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n_ell = sum(1 for k in key if k is Ellipsis)
        used = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            used += k.ndim if isinstance(k, Nd) and k.dt == 'b' else 1
        if n_ell == 0:
            key = key + (Ellipsis,)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - used)
                used = self.ndim
            else:
                out.append(k)
        if used > self.ndim:
            raise mark(IndexError('too many indices for array'))
        return out

    def __getitem__(self, key):
        from .seq import as_index_array
        if isinstance(key, Nd) and key.dt == 'b':
            return mask_get(self, key)
        keys = [as_index_array(k) for k in self._expand(key)]
        adv = [k for k in keys if isinstance(k, Nd)]
        if adv:
            return fancy_get(self, keys)
        return self._basic(keys)

    def _basic(self, keys):
        # keys are scalars, slices or None, one per dim (None adds a dim)
        dimmap = {}      # old view dim -> ('fix', e) or ('aff', newdim, start, step)
        shape = []
        d = 0
        for k in keys:
            if k is None:
                shape.append(1)
                continue
            n = self._shape[d]
            if isinstance(k, slice):
                st, ln, step = slice_bounds(k, n)
                dimmap[d] = ('aff', len(shape), z(st), step)
                shape.append(ln)
            else:
                i = self._norm_scalar(conc(k), n)
                dimmap[d] = ('fix', z(i))
            d += 1
        vm = []
        for m in self.vmap:
            if m[0] == 'fix':
                vm.append(m)
                continue
            _, od, st, step = m
            t = dimmap[od]
            if t[0] == 'fix':
                vm.append(('fix', z3.simplify(st + t[1] * step)))
            else:
                vm.append(('aff', t[1], z3.simplify(st + t[2] * step), step * t[3]))
        if not shape:
            return self.cell.read([m[1] for m in vm])
        return Nd(self.cell, shape, vm)

    def __setitem__(self, key, value):
        from .seq import as_index_array
        if isinstance(key, Nd) and key.dt == 'b':
            return mask_set(self, key, value)
        keys = [as_index_array(k) for k in self._expand(key)]
        if any(isinstance(k, Nd) for k in keys):
            return fancy_set(self, keys, value)
        tgt = self._basic_view(keys)
        tgt.assign(value)

    def _basic_view(self, keys):
        keys2, drop = [], []
        r = self
        # turn scalars into fixed dims while keeping a view object
        dimmap, shape, d = {}, [], 0
        for k in keys:
            if k is None:
                shape.append(1)
                continue
            n = self._shape[d]
            if isinstance(k, slice):
                st, ln, step = slice_bounds(k, n)
                dimmap[d] = ('aff', len(shape), z(st), step)
                shape.append(ln)
            else:
                dimmap[d] = ('fix', z(self._norm_scalar(conc(k), n)))
            d += 1
        vm = []
        for m in self.vmap:
            if m[0] == 'fix':
                vm.append(m)
                continue
            _, od, st, step = m
            t = dimmap[od]
            if t[0] == 'fix':
                vm.append(('fix', z3.simplify(st + t[1] * step)))
            else:
                vm.append(('aff', t[1], z3.simplify(st + t[2] * step), step * t[3]))
        return Nd(self.cell, shape, vm)

    def cover(self, bvars):
        """(list of conditions, view index exprs) for base indices bvars."""
        conds, idx = [], [z3.IntVal(0)] * len(self._shape)
        for b, m, bn in zip(bvars, self.vmap, self.cell.shape):
            if m[0] == 'fix':
                conds.append(b == m[1])
                continue
            _, d, st, step = m
            n = z(self._shape[d])
            full = step == 1 and z3.is_int_value(st) and st.as_long() == 0 and \
                z3.simplify(z(bn)).eq(z3.simplify(n))
            if step == 1:
                e = b if (z3.is_int_value(st) and st.as_long() == 0) else b - st
            elif step == -1:
                e = st - b
            elif step > 0:
                e = (b - st) / step
                conds.append((b - st) % step == 0)
            else:
                raise Unsupported('negative strided write')
            if not full and not (z3.is_int_value(z3.simplify(n)) and step == -1 and False):
                if step == -1 and z3.simplify(z(bn)).eq(z3.simplify(n)) and z3.simplify(st - (n - 1)).eq(z3.IntVal(0)):
                    pass
                else:
                    conds.append(z3.And(e >= 0, e < n))
            idx[d] = e
        return conds, idx

    def assign(self, value, where=None):
        """In-place assignment (broadcast) into this view."""
        v = asarray(value)
        if v.ndim > self.ndim:
            # leading dims of size one
            extra = v.ndim - self.ndim
            for s in v._shape[:extra]:
                if not known_one(s):
                    raise mark(ValueError('could not broadcast input array'))
            v = v[(0,) * extra] if extra else v
            v = asarray(v)
        sh = broadcast_shapes([v._shape, self._shape]) if v.ndim else self._shape
        for a, b in zip(sh, self._shape):
            if a is not b and not dim_eq(a, b):
                raise mark(ValueError('could not broadcast input array'))
        if self.cell.dtype == 'f' and v.dt == 'c':
            raise Unsupported('complex stored in a real array')
        bv = self.cell.vars
        conds, idx = self.cover(bv)
        val = cast(v.at_b(idx, self._shape), self.cell.dtype)
        if where is not None:
            conds = conds + [boolean(where.at_b(idx, self._shape))]
        c = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
        self.cell.set(ite(c, val, self.cell.val), (c, val))

    def at_b(self, idx, shape):
        """Element at the indices of a broadcast shape."""
        off = len(shape) - self.ndim
        ix = []
        for d in range(self.ndim):
            if known_one(self._shape[d]) and not known_one(shape[off + d]):
                ix.append(z3.IntVal(0))
            else:
                s = self._shape[d]
                if is_sym(s) and not (is_sym(shape[off + d]) and z3.simplify(s.e).eq(z3.simplify(shape[off + d].e))) \
                        and not dim_eq(s, shape[off + d]):
                    ix.append(z3.IntVal(0))
                else:
                    ix.append(z(idx[off + d]))
        return self.at(*ix)

    # -- arithmetic --------------------------------------------------------
    def __add__(self, o): return binop(add, self, o)
    def __radd__(self, o): return binop(add, o, self)
    def __sub__(self, o): return binop(sub, self, o)
    def __rsub__(self, o): return binop(sub, o, self)
    def __mul__(self, o): return binop(mul, self, o)
    def __rmul__(self, o): return binop(mul, o, self)
    def __truediv__(self, o): return binop(ndiv, self, o)
    def __rtruediv__(self, o): return binop(ndiv, o, self)
    def __floordiv__(self, o): return binop(core.floordiv, self, o)
    def __mod__(self, o): return binop(core.mod, self, o)
    def __pow__(self, o): return binop(core.power, self, o)
    def __neg__(self): return emap(neg, self)
    def __pos__(self): return self
    def __abs__(self): return emap(core.absolute, self)
    def __lt__(self, o): return binop(lambda a, b: compare('<', a, b), self, o)
    def __le__(self, o): return binop(lambda a, b: compare('<=', a, b), self, o)
    def __gt__(self, o): return binop(lambda a, b: compare('>', a, b), self, o)
    def __ge__(self, o): return binop(lambda a, b: compare('>=', a, b), self, o)
    def __eq__(self, o): return binop(lambda a, b: compare('==', a, b), self, o)
    def __ne__(self, o): return binop(lambda a, b: compare('!=', a, b), self, o)
    def __invert__(self): return emap(lnot, self)
    def __and__(self, o): return binop(lambda a, b: land(a, b), self, o)
    def __rand__(self, o): return binop(lambda a, b: land(a, b), self, o)
    def __or__(self, o): return binop(lambda a, b: lor(a, b), self, o)
    def __ror__(self, o): return binop(lambda a, b: lor(a, b), self, o)
    def __xor__(self, o): return binop(lambda a, b: compare('!=', a, b), self, o)
    def __matmul__(self, o): return dot(self, o)
    __hash__ = None

    def _inplace(self, op, o):
        r = binop(op, self, o)
        if not isinstance(r, Nd):
            r = asarray(r)
        if self.cell.dtype in 'ib' and r.dt in 'fc' or (self.cell.dtype == 'f' and r.dt == 'c'):
            raise mark(TypeError('Cannot cast ufunc output'))
        self.assign(r)
        return self

    def __iadd__(self, o): return self._inplace(add, o)
    def __isub__(self, o): return self._inplace(sub, o)
    def __imul__(self, o): return self._inplace(mul, o)
    def __itruediv__(self, o): return self._inplace(ndiv, o)
    def __iand__(self, o): return self._inplace(lambda a, b: land(a, b), o)
    def __ior__(self, o): return self._inplace(lambda a, b: lor(a, b), o)

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.at())
        s = self.size
        if not is_sym(s) and s == 1:
            return bool(self.at(*([0] * self.ndim)))
        if is_sym(s) and eng().branch(z(s) == 1):
            return bool(self.at(*([0] * self.ndim)))
        raise mark(ValueError('truth value of an array is ambiguous'))

    def __contains__(self, x):
        return core.exists(self.size, lambda i: compare('==', self.flatten().at(i), x)).__bool__()

    # -- methods --------------------------------------------------------------
    def copy(self):
        return Nd.make(self._shape, lambda *i: self.at(*i), self.dt)

    def astype(self, dt, **kw):
        return Nd.make(self._shape, lambda *i: cast(self.at(*i), dtype_of(dt)), dtype_of(dt))

    def squeeze(self, axis=None):
        keep = []
        for d, s in enumerate(self._shape):
            if axis is not None and d != (axis if axis >= 0 else axis + self.ndim):
                keep.append(d)
                continue
            if known_one(s):
                continue
            if is_sym(s) and eng().branch(z(s) == 1):
                continue
            keep.append(d)
        return self._select_dims(keep)

    def _select_dims(self, keep):
        new = {d: i for i, d in enumerate(keep)}
        vm = []
        for m in self.vmap:
            if m[0] == 'aff' and m[1] not in new:
                vm.append(('fix', m[2]))
            elif m[0] == 'aff':
                vm.append(('aff', new[m[1]], m[2], m[3]))
            else:
                vm.append(m)
        return Nd(self.cell, [self._shape[d] for d in keep], vm)

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        old = [(d, s) for d, s in enumerate(self._shape) if not known_one(s)]
        if any((not is_sym(s)) and s == -1 for s in shape):
            others = [s for s in shape if is_sym(s) or s != -1]
            if len(old) == 1 and all(known_one(s) for s in others):
                shape = tuple(old[0][1] if (not is_sym(s) and s == -1) else s for s in shape)
            elif len(old) == 0 and all(known_one(s) for s in others):
                shape = tuple(1 if (not is_sym(s) and s == -1) else s for s in shape)
            elif all(known_one(s) for s in others):
                return self.flatten_view().reshape(*[self.size if (not is_sym(s) and s == -1) else s for s in shape])
            else:
                raise Unsupported('reshape with -1')
        newd = [(d, s) for d, s in enumerate(shape) if not known_one(s)]
        if len(newd) == len(old) and all(dim_eq(a[1], b[1]) for a, b in zip(old, newd)):
            o2n = {a[0]: b[0] for a, b in zip(old, newd)}
            vm = []
            for m in self.vmap:
                if m[0] == 'aff':
                    vm.append(('aff', o2n[m[1]], m[2], m[3]) if m[1] in o2n else ('fix', m[2]))
                else:
                    vm.append(m)
            return Nd(self.cell, shape, vm)
        if all(not is_sym(s) for s in shape) and all(not is_sym(s) for s in self._shape):
            tot = 1
            for s in shape:
                tot *= s
            if tot != self.size:
                raise mark(ValueError('cannot reshape array'))
        # general row-major reshape (copy): needs concrete trailing dims
        flat = self.flatten()
        strides = []
        acc = 1
        for s in reversed(shape):
            strides.append(acc)
            acc = mul(acc, s)
        strides.reverse()
        if not dim_eq(acc, self.size):
            raise mark(ValueError('cannot reshape array'))

        def fn(*i):
            k = 0
            for a, st in zip(i, strides):
                k = add(k, mul(a, st))
            return flat.at(k)
        return Nd.make(shape, fn, self.dt)

    def flatten_view(self):
        return self.flatten()

    def flatten(self, order='C'):
        big = [d for d, s in enumerate(self._shape) if not known_one(s)]
        if len(big) <= 1:
            n = self._shape[big[0]] if big else 1

            def fn(i):
                ix = [z3.IntVal(0)] * self.ndim
                if big:
                    ix[big[0]] = z(i)
                return self.at(*ix)
            return Nd.make((n,), fn, self.dt)
        if self.ndim == 2:
            n0, n1 = self._shape
            return Nd.make((mul(n0, n1),), lambda i: self.at(core.mkint(z3.simplify(z(i) / z(n1))), core.mkint(z3.simplify(z(i) % z(n1)))), self.dt)
        raise Unsupported('flatten')
    ravel = flatten

    def tolist(self):
        from .seq import SList
        n = self._shape[0] if self._shape else None
        if n is None:
            return self.at()
        if self.ndim == 1:
            return SList.from_seq(n, lambda i: self.at(i))
        return SList.from_seq(n, lambda i: self._drop_dim(i).tolist())

    def item(self):
        if self.ndim == 0:
            return self.at()
        if all(known_one(s) for s in self._shape):
            return self.at(*([0] * self.ndim))
        raise Unsupported('item')

    def fill(self, v):
        self.assign(v)

    def sum(self, axis=None, **kw): return np_sum(self, axis, **kw)
    def max(self, axis=None, **kw): return np_ext('max', self, axis)
    def min(self, axis=None, **kw): return np_ext('min', self, axis)
    def mean(self, axis=None, **kw): return np_mean(self, axis)
    def argmax(self, axis=None): return np_argext('max', self, axis)
    def argmin(self, axis=None): return np_argext('min', self, axis)
    def conjugate(self): return emap(core.conj, self)
    conj = conjugate
    def dot(self, o): return dot(self, o)
    def any(self, axis=None): return np_any(self, axis)
    def all(self, axis=None): return np_all(self, axis)
    def argsort(self, *a, **k): return np_argsort(self)
    def round(self, nd=0): return emap(lambda x: core.rounded(x, nd), self)

    def __repr__(self):
        return f'<Nd shape={self._shape}>'
    __str__ = __repr__

    def __format__(self, s):
        return '<Nd>'

    def __float__(self):
        if self.ndim == 0 or all(known_one(s) for s in self._shape):
            return float(self.item())
        raise mark(TypeError('only length-1 arrays can be converted'))

    def __index__(self):
        if self.ndim == 0 and self.dt == 'i':
            return self.at().__index__()
        raise mark(TypeError('only integer scalar arrays can be converted to a scalar index'))


def ndiv(a, b):
    return div(a, b, scalar=False)


def slice_bounds(s, n):
    """(start, length, step) of a slice over a dimension of size n."""
    step = 1 if s.step is None else s.step
    if is_sym(step):
        raise Unsupported('symbolic slice step')
    st, en = s.start, s.stop
    st, en = conc(st), conc(en)
    for b in (st, en):
        if b is not None and kind(b) not in 'i':
            raise mark(TypeError('slice indices must be integers'))
    if not any(is_sym(x) for x in (st, en, n)):
        r = range(*slice(st, en, step).indices(n))
        return (r.start, len(r), step)
    E = eng()
    N = z(n)
    if step == -1 and st is None and en is None:
        return (simp_int(N - 1), n, -1)
    if step < 0:
        raise Unsupported('negative symbolic slice')

    def clip(b, default):
        if b is None:
            return default
        e = z(b)
        if z3.is_int_value(e) and e.as_long() >= 0:
            if e.as_long() == 0:
                return e
            return e if E.branch(e <= N) else N
        if E.branch(e < 0):
            e = e + N
            return e if E.branch(e >= 0) else z3.IntVal(0)
        return e if E.branch(e <= N) else N
    a = clip(st, z3.IntVal(0))
    b = clip(en, N)
    ln = z3.simplify(b - a)
    if not E.branch(ln >= 0):
        return (mkint(z3.simplify(a)), 0, step)
    if step != 1:
        ln = z3.simplify((ln + (step - 1)) / step)
    return (mkint(z3.simplify(a)), mkint(ln), step)


# ---------------------------------------------------------------------------
# conversions
# ---------------------------------------------------------------------------
def asarray(x, dtype=None):
    from .seq import SList, SymRange, Seq
    dtype = dtype if dtype in (None, 'f', 'i', 'b', 'c', 'f32') else dtype_of(dtype)
    if isinstance(x, Nd):
        if dtype is not None and x.dt != dtype:
            return Nd.make(x._shape, lambda *i: cast(x.at(*i), dtype), dtype)
        return x
    if isinstance(x, _np.ndarray):
        return from_numpy(x, dtype)
    if isinstance(x, (Seq,)):
        n = x.n
        e0 = None
        return Nd.make((n,), lambda i: x.get(i), dtype)
    if isinstance(x, (list, tuple, range)):
        if isinstance(x, SList) and x.is_symbolic():
            probe = x.sym_get(SInt(eng().index_var('p')))
            if isinstance(probe, Nd):
                sh = probe._shape
                return Nd.make((x.sym_len(),) + sh, lambda i, *r: x.sym_get(i).at(*r), dtype)
            if isinstance(probe, (list, tuple)):
                raise Unsupported('nested symbolic list to array')
            if not core._operand(probe):
                raise Unsupported('array of objects')
            return Nd.make((x.sym_len(),), lambda i: x.sym_get(i), dtype)
        items = list(x)
        if len(items) == 0:
            return Nd.make((0,), lambda i: cast(0.0, dtype or 'f'), dtype or 'f')
        arrs = [asarray(it) if isinstance(it, (list, tuple, Nd, _np.ndarray)) else it for it in items]
        if all(isinstance(a, Nd) for a in arrs):
            sh = arrs[0]._shape
            for a in arrs[1:]:
                if len(a._shape) != len(sh) or not all(dim_eq(p, q) for p, q in zip(a._shape, sh)):
                    raise mark(ValueError('setting an array element with a sequence (inhomogeneous shape)'))
            dt = dtype or promote(*[a.dt for a in arrs])
            return Nd.make((len(arrs),) + sh, lambda i, *r: pick(i, [a.at(*r) for a in arrs]), dt)
        if any(isinstance(a, Nd) for a in arrs):
            raise mark(ValueError('setting an array element with a sequence'))
        for a in arrs:
            if not core._operand(conc(a)):
                if isinstance(a, str):
                    raise mark(ValueError('could not convert string to float'))
                if a is None:
                    raise Unsupported('None in array')
                raise Unsupported(f'array of {type(a).__name__}')
        dt = dtype or promote(*[kind(a) for a in arrs])
        return Nd.make((len(arrs),), lambda i: pick(i, [cast(a, dt) for a in arrs]), dt)
    if core._operand(x):
        return Nd.make((), lambda: x, dtype)
    if isinstance(x, str):
        raise mark(ValueError('could not convert string to float'))
    raise Unsupported(f'asarray of {type(x).__name__}')


def pick(i, items):
    """items[i] as a term, for a list of scalars."""
    if not is_sym(i):
        return items[i]
    e = z(i)
    if z3.is_int_value(e):
        return items[e.as_long()]
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = ite(e == j, items[j], r)
    return r


def from_numpy(x, dtype=None):
    if x.size > 400:
        raise Unsupported('large concrete array in symbolic mode')
    dt = dtype or {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'c': 'c'}.get(x.dtype.kind)
    if dt is None:
        raise Unsupported(f'array dtype {x.dtype}')
    if x.ndim == 0:
        return Nd.make((), lambda: x.item(), dt)
    flat = [v.item() for v in x.flatten()]
    strides = []
    acc = 1
    for s in reversed(x.shape):
        strides.append(acc)
        acc *= s
    strides.reverse()
    if len(set(map(repr, flat))) == 1:
        return Nd.make(x.shape, lambda *i: flat[0], dt)

    def fn(*i):
        k = z3.IntVal(0)
        for a, st in zip(i, strides):
            k = k + z(a) * st
        return pick(mkint(z3.simplify(k)), flat)
    if not flat:
        return Nd.make(x.shape, lambda *i: cast(0.0, dt), dt)
    return Nd.make(x.shape, fn, dt)


# ---------------------------------------------------------------------------
# elementwise
# ---------------------------------------------------------------------------
def emap(fn, *xs, dtype=None):
    if not any(isinstance(x, (Nd, _np.ndarray, list, tuple)) or hasattr(x, 'sym_len') for x in xs):
        return fn(*xs)
    arrs = [asarray(x) for x in xs]
    sh = broadcast_shapes([a._shape for a in arrs])
    r = Nd.make(sh, lambda *i: fn(*[a.at_b(i, sh) for a in arrs]), dtype)
    if not sh:
        return r.at()
    return r


def binop(fn, a, b):
    for x in (a, b):
        if not (isinstance(x, (Nd, _np.ndarray, list, tuple)) or core._operand(conc(x)) or hasattr(x, 'sym_len')):
            return NotImplemented
    return emap(fn, conc(a) if not isinstance(a, _np.ndarray) else a, conc(b) if not isinstance(b, _np.ndarray) else b)


# ---------------------------------------------------------------------------
# masks and fancy indexing
# ---------------------------------------------------------------------------
def mask_get(a, m):
    if m.ndim == 1 and a.ndim >= 1:
        if not dim_eq(m._shape[0], a._shape[0]):
            raise mark(IndexError('boolean index did not match indexed array'))
        n, sel, _ = core.filtered(m._shape[0], lambda i: m.at(i))
        return Nd.make((n,) + a._shape[1:], lambda i, *r: a.at(sel(i), *r), a.dt)
    if m.ndim == a.ndim:
        for p, q in zip(m._shape, a._shape):
            if not dim_eq(p, q):
                raise mark(IndexError('boolean index did not match indexed array'))
        fm, fa = m.flatten(), a.flatten()
        n, sel, _ = core.filtered(fm._shape[0], lambda i: fm.at(i))
        return Nd.make((n,), lambda i: fa.at(sel(i)), a.dt)
    raise Unsupported('mask of other dimension')


def mask_set(a, m, value):
    v = asarray(value)
    if m.ndim > a.ndim:
        raise mark(IndexError('too many indices for array'))
    for p, q in zip(m._shape, a._shape):
        if not dim_eq(p, q):
            raise mark(IndexError('boolean index did not match indexed array'))
    if v.ndim and not all(known_one(s) for s in v._shape):
        if m.ndim == 1 and a.ndim == 1:
            # v has one entry per true position, in order
            n, sel, rank = core.filtered(m._shape[0], lambda i: m.at(i))
            if not dim_eq(v._shape[0], n):
                raise mark(ValueError('cannot assign to mask'))
            full = Nd.make(a._shape, lambda i: v.at(rank(i)), v.dt)
            a.assign(full, where=m)
            return
        raise Unsupported('masked assignment of an array')
    if v.ndim:
        v = asarray(v.at(*([0] * v.ndim)))
    w = m
    if m.ndim < a.ndim:
        w = m.reshape(*(tuple(m._shape) + (1,) * (a.ndim - m.ndim)))
    a.assign(v, where=w)


def _fancy_plan(a, keys):
    """Split keys; returns (kind list, broadcast index shape)."""
    idx = []
    d = 0
    for k in keys:
        if k is None:
            raise Unsupported('newaxis with fancy index')
        if isinstance(k, slice):
            st, ln, step = slice_bounds(k, a._shape[d])
            idx.append(('s', st, ln, step))
        elif isinstance(k, Nd):
            if k.dt == 'b':
                if k.ndim != 1 or not dim_eq(k._shape[0], a._shape[d]):
                    raise Unsupported('boolean mask in a tuple index')
                n, sel, _ = core.filtered(k._shape[0], lambda i, k=k: k.at(i))
                k = Nd.make((n,), lambda i: sel(i), 'i')
                idx.append(('a', k, a._shape[d], True))
            else:
                if k.dt != 'i':
                    raise mark(IndexError('arrays used as indices must be of integer type'))
                idx.append(('a', k, a._shape[d], False))
        else:
            idx.append(('x', a._norm_scalar(conc(k), a._shape[d])))
        d += 1
    arrs = [t[1] for t in idx if t[0] == 'a']
    bsh = broadcast_shapes([k._shape for k in arrs])
    E = eng()
    wraps = []
    for t in idx:
        if t[0] != 'a':
            continue
        k, n, safe = t[1], t[2], t[3]
        if safe:
            continue
        flat = k.flatten() if k.ndim > 1 else k
        if k.ndim == 2:
            ok = core.forall(k._shape[0], lambda i: core.forall(k._shape[1], lambda j: land(compare('>=', k.at(i, j), 0), compare('<', k.at(i, j), n))))
        elif k.ndim == 1:
            ok = core.forall(k._shape[0], lambda i: land(compare('>=', k.at(i), 0), compare('<', k.at(i), n)))
        else:
            raise Unsupported('fancy index dimension')
        if ok is True or E.branch(boolean(ok)):
            continue
        # some index is outside [0, n): negative ones wrap, others raise
        if k.ndim == 2:
            ok2 = core.forall(k._shape[0], lambda i: core.forall(k._shape[1], lambda j: land(compare('>=', k.at(i, j), neg(n)), compare('<', k.at(i, j), n))))
        else:
            ok2 = core.forall(k._shape[0], lambda i: land(compare('>=', k.at(i), neg(n)), compare('<', k.at(i), n)))
        if not (ok2 is True or E.branch(boolean(ok2))):
            raise mark(IndexError('index out of bounds'))
        wraps.append(id(k))
    return idx, bsh, wraps


def _fancy_base(a, idx, bsh, wraps):
    """function of (broadcast indices, slice indices) -> indices into a"""
    def fn(bi, si):
        out = []
        s = 0
        for d, t in enumerate(idx):
            if t[0] == 'x':
                out.append(t[1])
            elif t[0] == 's':
                out.append(add(t[1], mul(si[s], t[3])))
                s += 1
            else:
                v = t[1].at_b(bi, bsh)
                if id(t[1]) in wraps:
                    v = ite(boolean(compare('<', v, 0)), add(v, t[2]), v)
                out.append(v)
        return out
    return fn


def fancy_get(a, keys):
    idx, bsh, wraps = _fancy_plan(a, keys)
    base = _fancy_base(a, idx, bsh, wraps)
    ssh = [t[2] for t in idx if t[0] == 's']
    pos = [i for i, t in enumerate(idx) if t[0] in 'ax']
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    before = sum(1 for t in idx[:pos[0]] if t[0] == 's') if contiguous else 0
    shape = tuple(ssh[:before]) + tuple(bsh) + tuple(ssh[before:])
    nb = len(bsh)

    def fn(*i):
        bi = i[before:before + nb]
        si = i[:before] + i[before + nb:]
        return a.at(*base(bi, si))
    return Nd.make(shape, fn, a.dt)


def fancy_set(a, keys, value):
    idx, bsh, wraps = _fancy_plan(a, keys)
    arr = [t for t in idx if t[0] == 'a']
    if len(bsh) != 1:
        raise Unsupported('fancy assignment')
    # a[k] = v with k a 1-d index array: last write wins; only scalars values
    v = asarray(value)
    if v.ndim != 0:
        raise Unsupported('fancy assignment of an array')
    k = arr[0][1]
    if len(arr) != 1 or any(t[0] == 's' and not (not is_sym(t[1]) and t[1] == 0 and t[3] == 1) for t in idx):
        raise Unsupported('fancy assignment')
    d = [i for i, t in enumerate(idx) if t[0] == 'a'][0]
    n = a._shape[d]

    def hit(i):
        def eqn(j):
            kv = k.at(j)
            if id(k) in wraps:
                kv = ite(boolean(compare('<', kv, 0)), add(kv, n), kv)
            return compare('==', kv, i)
        return core.exists(k._shape[0], eqn)
    m = Nd.make(a._shape, lambda *ii: land(*([hit(ii[d])] + [compare('==', ii[q], t[1]) for q, t in enumerate(idx) if t[0] == 'x'])), 'b')
    a.assign(v, where=m)


# ---------------------------------------------------------------------------
# reductions
# ---------------------------------------------------------------------------
def _axis(a, axis):
    if axis is None:
        return None
    if isinstance(axis, tuple):
        raise Unsupported('tuple axis')
    return axis if axis >= 0 else axis + a.ndim


def reduce(a, axis, fn, dtype=None):
    """fn(n, getter) -> scalar."""
    axis = _axis(a, axis)
    if axis is None:
        if a.ndim == 0:
            return fn(1, lambda i: a.at())
        if a.ndim == 1:
            return fn(a._shape[0], lambda i: a.at(i))
        if sum(1 for s in a._shape if not known_one(s)) <= 1:
            f = a.flatten()
            return fn(f._shape[0], lambda i: f.at(i))
        return None
    sh = a._shape[:axis] + a._shape[axis + 1:]

    def g(*i):
        return fn(a._shape[axis], lambda j: a.at(*(i[:axis] + (j,) + i[axis:])))
    r = Nd.make(sh, g, dtype)
    return r if sh else r.at()


def np_sum(a, axis=None, dtype=None, keepdims=False, **kw):
    a = asarray(a)
    if kw:
        raise Unsupported('sum options')
    r = reduce(a, axis, lambda n, g: core.total(n, g))
    if r is None:
        if a.ndim == 2:
            r = core.total(a._shape[0], lambda i: core.total(a._shape[1], lambda j: a.at(i, j)))
        else:
            raise Unsupported('sum over 3 axes')
    if keepdims:
        return _keepdims(a, axis, r)
    return r


def _keepdims(a, axis, r):
    if axis is None:
        return asarray(r).reshape(*([1] * a.ndim))
    ax = _axis(a, axis)
    r = asarray(r)
    return r.reshape(*(r._shape[:ax] + (1,) + r._shape[ax:]))


def _nonempty(n):
    if not is_sym(n):
        if n == 0:
            raise mark(ValueError('zero-size array to reduction operation'))
    elif eng().branch(z(n) <= 0):
        raise mark(ValueError('zero-size array to reduction operation'))


def np_ext(which, a, axis=None, keepdims=False, **kw):
    a = asarray(a)
    if kw:
        raise Unsupported('extremum options')
    ax = _axis(a, axis)
    if ax is None:
        for s in a._shape:
            _nonempty(s)
        if a.ndim == 2 and not (known_one(a._shape[0]) or known_one(a._shape[1])):
            r = core.extremum(a._shape[0], lambda i: core.extremum(a._shape[1], lambda j: a.at(i, j), which)[0], which)[0]
        else:
            r = reduce(a, None, lambda n, g: core.extremum(n, g, which)[0])
        if r is None:
            raise Unsupported('extremum over 3 axes')
    else:
        _nonempty(a._shape[ax])
        r = reduce(a, axis, lambda n, g: core.extremum(n, g, which)[0])
    return _keepdims(a, axis, r) if keepdims else r


def np_argext(which, a, axis=None):
    a = asarray(a)
    ax = _axis(a, axis)
    if ax is None and a.ndim > 1:
        f = a.flatten()
        _nonempty(f._shape[0])
        return core.extremum(f._shape[0], lambda i: f.at(i), which)[1]
    _nonempty(a._shape[ax or 0])
    return reduce(a, axis, lambda n, g: core.extremum(n, g, which)[1], 'i')


def np_mean(a, axis=None, keepdims=False, **kw):
    a = asarray(a)
    s = np_sum(a, axis)
    ax = _axis(a, axis)
    n = a.size if ax is None else a._shape[ax]
    r = binop(ndiv, s, n)
    return _keepdims(a, axis, r) if keepdims else r


def _defined(n, g):
    cnt = core.total(n, lambda i: ite(boolean(isnan(g(i))), 0, 1))
    tot = core.total(n, lambda i: ite(boolean(isnan(g(i))), 0.0, clean(g(i))))
    return cnt, tot


def clean(x):
    """value part of a possibly undefined scalar"""
    if isinstance(x, SFlt):
        return SFlt(x.e, False)
    return 0.0 if (isinstance(x, float) and x != x) else x


def np_nanmean(a, axis=None):
    def f(n, g):
        c, t = _defined(n, g)
        return div(t, c, scalar=False)
    return reduce(asarray(a), axis, f)


def np_nanstd(a, axis=None, ddof=0):
    def f(n, g):
        c, t = _defined(n, g)
        m = div(t, c, scalar=False)

        def dev(i):
            d = sub(clean(g(i)), clean(m))
            return ite(boolean(isnan(g(i))), 0.0, mul(d, d))
        ss = core.total(n, dev)
        den = sub(c, ddof)
        v = div(ss, den, scalar=False)
        r = core.ufun('sqrt', v)
        return SFlt(r.e, core.nor(nanflag(v), z3.simplify(integer(den) <= 0) if kind(den) == 'i' else False))
    return reduce(asarray(a), axis, f)


def np_std(a, axis=None, ddof=0):
    def f(n, g):
        m = div(core.total(n, g), n, scalar=False)
        ss = core.total(n, lambda i: mul(sub(g(i), m), sub(g(i), m)))
        return core.ufun('sqrt', div(ss, sub(n, ddof), scalar=False))
    return reduce(asarray(a), axis, f)


def isnan(x):
    x = conc(x)
    if kind(x) == 'c':
        return False
    n = nanflag(x)
    return mkbool(n) if z3.is_expr(n) else bool(n)


def np_any(a, axis=None):
    a = asarray(a)
    r = reduce(a, axis, lambda n, g: core.exists(n, lambda i: mkb(g(i))))
    if r is None:
        r = core.exists(a._shape[0], lambda i: core.exists(a._shape[1], lambda j: mkb(a.at(i, j))))
    return r


def np_all(a, axis=None):
    a = asarray(a)
    r = reduce(a, axis, lambda n, g: core.forall(n, lambda i: mkb(g(i))))
    if r is None:
        r = core.forall(a._shape[0], lambda i: core.forall(a._shape[1], lambda j: mkb(a.at(i, j))))
    return r


def mkb(x):
    return mkbool(boolean(x))


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return binop(mul, a, b)
    n = a._shape[-1]
    m = b._shape[0] if b.ndim == 1 else b._shape[-2]
    if not dim_eq(n, m):
        raise mark(ValueError('shapes not aligned'))
    if known_one(m):
        n = 1
    if a.ndim == 1 and b.ndim == 1:
        return core.total(n, lambda k: mul(a.at(k), b.at(k)))
    if a.ndim == 2 and b.ndim == 1:
        return Nd.make((a._shape[0],), lambda i: core.total(n, lambda k: mul(a.at(i, k), b.at(k))), promote(a.dt, b.dt))
    if a.ndim == 1 and b.ndim == 2:
        return Nd.make((b._shape[1],), lambda j: core.total(n, lambda k: mul(a.at(k), b.at(k, j))), promote(a.dt, b.dt))
    if a.ndim == 2 and b.ndim == 2:
        return Nd.make((a._shape[0], b._shape[1]), lambda i, j: core.total(n, lambda k: mul(a.at(i, k), b.at(k, j))), promote(a.dt, b.dt))
    raise Unsupported('dot of high dimension')


def np_argsort(a, axis=-1, kind=None, **kw):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('argsort of 2-d')
    n = a._shape[0]
    nonan = core.forall(n, lambda i: lnot(isnan(a.at(i))))
    if not (nonan is True or eng().branch(boolean(nonan))):
        raise Unsupported('sorting undefined values')
    perm, inv = core.argsorted(n, lambda i: clean(a.at(i)))
    return Nd.make((n,), lambda i: perm(i), 'i')


def np_fft(a, n=None, axis=-1, **kw):
    a = asarray(a)
    ax = _axis(a, axis)
    N = a._shape[ax] if n is None else n
    ln = a._shape[ax]

    def fn(*i):
        rest = i[:ax] + i[ax + 1:]

        def row(j):
            return a.at(*(rest[:ax] + (j,) + rest[ax:]))
        probe = row(SInt(eng().index_var('z')))
        # only rows that exist are looked at
        there = [z3.And(z(j) >= 0, z(j) < z(d)) for j, d in zip(rest, a._shape[:ax] + a._shape[ax + 1:]) if is_sym(j)]
        get = core.opaque('fft', [([ln], row)], [N], 1, 'c', given=there)
        return get(i[ax])
    sh = a._shape[:ax] + (N,) + a._shape[ax + 1:]
    return Nd.make(sh, fn, 'c')
