"""Loops over sequences of symbolic length.

One generic iteration k is executed (all local paths).  For every storage the
body can change, a closed form of its content before iteration k is guessed
and the body is executed again under that guess; the guess is accepted only
when the second execution reproduces exactly the ingredients the closed form
was built from, which makes the closed form an inductive invariant by
construction (initial value at k = 0, one more ingredient at each step):

  unchanged                      nothing is written
  rows(e)     entry k+c of the storage is written in iteration k and no other
  sum(g)      the body adds g(k)
  last(e)     the body overwrites the storage with e(k)
  append(x)   the list grows by x(k), or by x(k) when c(k) holds

Early exits (return, break, exceptions) split the path on "no iteration
exits", resp. run the body once at the first iteration that does.
Anything else raises Unsupported; it is never assumed away.
"""
import z3
from . import core, nd, seq
from .core import (real, SInt, SFlt, SCpx, SBool, SStr, Unsupported, Infeasible, eng, integer, kind, is_sym, ite, subst,
                   mkint, mkbool, boolean, conc, Sym)
from .nd import Nd, Cell
from .seq import SList, Seq, ItemsSeq, ConcatSeq, TmplSeq, SliceSeq, as_seq, is_symbolic_iter, vsubst, seq_of, Field, Family

TRACE = []


class Ret:
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value


class _Brk:
    def __repr__(self):
        return 'BRK'


BRK = _Brk()


class Poison:
    """A value the loop summary does not describe; any use is refused."""

    def __init__(self, why):
        object.__setattr__(self, '_why', why)

    def _bad(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, '_why'))
    __getattr__ = __setattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = _bad
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __neg__ = __abs__ = __contains__ = __iadd__ = __isub__ = __imul__ = __itruediv__ = _bad


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


def native(items, body):
    for x in items:
        r = body(x)
        if r is not None:
            return r
    return None


def loop(it, body, get, set_, lineno=0):
    if core.ENG is None:
        return native(it, body)
    it = iter_of(it)
    if not is_symbolic_iter(it):
        if isinstance(it, Seq):
            return native([it.get(i) for i in range(it.n)], body)
        return native(it, body)
    s = as_seq(it)
    n = s.n
    if not is_sym(n):
        return native([s.get(i) for i in range(n)], body)
    E = eng()
    if not E.branch(integer(n) > 0):
        return None
    if E.known(integer(n) == 1) is True:
        return native([s.get(0)], body)
    two = seam(s)
    if two is not None:
        for part in two:
            r = loop(part, body, get, set_, lineno)
            if r is not None:
                return r
        return None
    return Generic(s, n, body, get, set_, lineno).run()


def seam(s):
    """The two parts of a concatenation (also zipped with other sequences)."""
    if isinstance(s, seq.ConcatSeq):
        return s.a, s.b
    if isinstance(s, seq.EnumSeq):
        two = seam(s.seq)
        return two and (seq.EnumSeq(two[0], s.start), seq.EnumSeq(two[1], core.add(two[0].n, s.start)))
    if isinstance(s, seq.ZipSeq):
        for x in s.seqs:
            if isinstance(x, seq.ConcatSeq):
                m = x.a.n
                if eng().known(integer(m) <= integer(s.n)) is not True:
                    continue
                rest = core.sub(s.n, m)
                return tuple(seq.ZipSeq([seq.slice_seq(y, at, k, 1) for y in s.seqs]) for at, k in ((0, m), (m, rest)))
    return None


def map_list(s, f):
    out = SList()

    def b(x):
        out.append(f(x))
    loop(s, b, lambda: {}, lambda d: None)
    return out


def filter_list(s, f, cond):
    out = SList()

    def b(x):
        if cond(x):
            out.append(f(x))
    loop(s, b, lambda: {}, lambda d: None)
    return out


def iter_of(x):
    if core.ENG is None or isinstance(x, (list, tuple, dict, str, Nd, Seq)):
        return x
    if (seq.is_instance(x) or seq.is_proxy(x)) and not hasattr(x.__class__, '__iter__') and hasattr(x.__class__, '__getitem__'):
        E = eng()
        lists = [v for v in x.__dict__.values() if isinstance(v, SList)]
        for L in lists:
            if L._sym is None:
                if all(x[i] is v for i, v in enumerate(list.__iter__(L))):
                    try:
                        x[list.__len__(L)]
                    except IndexError:
                        return list(list.__iter__(L))
                continue
            c = L.content()
            k = E.index_var('g')
            ps = core.explore(lambda: x[SInt(k)], [z3.And(k >= 0, k < integer(c.n))])
            if len(ps) == 1 and ps[0].kind == 'ok' and same_value(ps[0].value, c.get(SInt(k))):
                return c
        raise Unsupported(f'iteration over {type(x).__name__}')
    return x


# ---------------------------------------------------------------------------
def sim(e):
    return z3.simplify(e) if z3.is_expr(e) else e


def term_eq(a, b):
    if a.eq(b):
        return True
    a, b = z3.simplify(a), z3.simplify(b)
    if a.eq(b):
        return True
    return False


def same_value(a, b, depth=0):
    """Syntactic identity of two engine values (up to bound variables)."""
    if a is b:
        return True
    a, b = conc(a), conc(b)
    if isinstance(a, Poison) or isinstance(b, Poison) or a is MISSING or b is MISSING:
        return False
    if core._operand(a) and core._operand(b):
        if not is_sym(a) and not is_sym(b):
            return type(a) is type(b) and (a == b or (a != a and b != b))
        if kind(a) != kind(b):
            return False
        if kind(a) == 'c':
            x, y = core.cpx(a), core.cpx(b)
            return term_eq(x.re, y.re) and term_eq(x.im, y.im)
        if kind(a) == 'f':
            if core._is_inf(a) or core._is_inf(b):
                return False
            na, nb = core.nanB(core.nanflag(a)), core.nanB(core.nanflag(b))
            return term_eq(na, nb) and term_eq(core.real(a), core.real(b))
        if kind(a) == 'b':
            return term_eq(boolean(a), boolean(b))
        return term_eq(integer(a), integer(b))
    if isinstance(a, SStr) and isinstance(b, SStr):
        return term_eq(a.e, b.e)
    if isinstance(a, Nd) and isinstance(b, Nd):
        if a.ndim != b.ndim or not all(same_value(x, y) for x, y in zip(a._shape, b._shape)):
            return False
        vs = [SInt(z3.Int(f'sv!{i}')) for i in range(a.ndim)]
        return same_value(a.at(*vs), b.at(*vs))
    if isinstance(a, SList) and isinstance(b, SList):
        return same_value(a.content(), b.content(), depth + 1)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if not same_value(a.n, b.n):
            return False
        if isinstance(a, ItemsSeq) and isinstance(b, ItemsSeq):
            return all(same_value(x, y, depth + 1) for x, y in zip(a.items, b.items))
        if not is_sym(a.n):
            return all(same_value(a.get(i), b.get(i), depth + 1) for i in range(a.n))
        if isinstance(a, ConcatSeq) and isinstance(b, ConcatSeq):
            return same_value(a.a, b.a, depth) and same_value(a.b, b.b, depth)
        if isinstance(a, ConcatSeq) or isinstance(b, ConcatSeq):
            return False
        if isinstance(a, seq.FamSeq) and isinstance(b, seq.FamSeq):
            return a.fam is b.fam or same_fam(a.fam, b.fam, depth)
        v = SInt(z3.Int(f'svi!{depth}'))
        return same_value(a.get(v), b.get(v), depth + 1)
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(same_value(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict) and type(a) is type(b):
        return list(a) == list(b) and all(same_value(a[k], b[k], depth + 1) for k in a)
    if seq.is_proxy(a) and seq.is_proxy(b):
        return (a._pydv_fam is b._pydv_fam or same_fam(a._pydv_fam, b._pydv_fam, depth)) and same_value(a._pydv_idx, b._pydv_idx)
    if seq.is_instance(a) and seq.is_instance(b):
        if type(a) is not type(b) or list(a.__dict__) != list(b.__dict__) or depth > 6:
            return False
        return all(same_value(a.__dict__[k], b.__dict__[k], depth + 1) for k in a.__dict__)
    if type(a) is type(b) and isinstance(a, (str, bytes, type(None))):
        return a == b
    return False


def same_fam(f, g, depth=0):
    if f.cls is not g.cls or list(f.fields) != list(g.fields) or not same_value(f.n, g.n):
        return False
    v = SInt(z3.Int(f'svf!{depth}'))
    return all(same_value(f.get(nm, v), g.get(nm, v), depth + 1) for nm in f.fields)


# -- placeholders -------------------------------------------------------------
_PH = {}                        # placeholder name -> when it was made
_CLOCK = [0]
_FLOOR = [0]                    # of the loops being summarised: placeholders of enclosing loops are ordinary values


def ph_scalar(like, name, args=(), nan=True):
    """Fresh scalar of the same kind as `like`, a function of args."""
    E = eng()
    k = kind(like)
    srt = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort(), 'c': z3.RealSort(), 's': z3.IntSort()}.get(k)
    if srt is None:
        return None

    def mk(tag, so):
        nm = E.fresh(f'ph_{name}{tag}')
        _CLOCK[0] += 1
        _PH[nm] = _CLOCK[0]
        if args:
            return z3.Function(nm, *([a.sort() for a in args] + [so]))(*args)
        return z3.Const(nm, so)
    if k == 'c':
        return SCpx(mk('re', srt), mk('im', srt))
    if k == 'f':
        fl = core.nanflag(like)
        return SFlt(mk('', srt), mk('nan', z3.BoolSort()) if (nan and fl is not False) else False)
    if k == 'i':
        return SInt(mk('', srt))
    if k == 'b':
        return SBool(mk('', srt))
    return SStr(mk('', srt))


def has_ph_expr(*es):
    seen = set()
    todo = list(es)
    E = eng()
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            nm = e.decl().name()
            if _PH.get(nm, 0) > _FLOOR[-1]:
                return True
            got = E.defs.get(nm)
            if got is not None and nm not in seen:
                seen.add(nm)
                d = got[0]
                for n_, vs, b in d.arrays:
                    todo.append(n_)
                    todo.extend(core.exprs_of(b))
                todo.extend(d.scalars)
            todo.extend(e.children())
    return False


def has_ph_def(d):
    return has_ph_expr(*[x for n, _, b in d.arrays for x in [n] + core.exprs_of(b)], *d.scalars)


def has_ph(v):
    return has_ph_expr(*seq.exprs_in(v))


def delta(post, pre):
    """post - pre for scalars, looking through conditionals; None if unknown."""
    kp, kq = kind(post), kind(pre)
    if 'c' in (kp, kq):
        a, b = core.cpx(post), core.cpx(pre)
        r, i = _delta(a.re, b.re), _delta(a.im, b.im)
        if r is None or i is None:
            return None
        return SCpx(r, i)
    if kp == kq == 'i':
        r = _delta(integer(post), integer(pre))
        return None if r is None else core.simp_int(r)
    if kp in 'fi' and kq in 'fi':
        n1, n2 = core.nanflag(post), core.nanflag(pre)
        r = _delta(core.real(post), core.real(pre))
        if r is None:
            return None
        if n2 is False and n1 is False:
            return SFlt(r, False)
        # undefined-ness accumulates as a disjunction
        b1, b2 = core.nanB(n1), core.nanB(n2)
        rest = z3.simplify(z3.substitute(b1, (b2, z3.BoolVal(False)))) if not (z3.is_true(b2) or z3.is_false(b2)) else b1
        return SFlt(r, core.nor(rest) if not z3.is_false(rest) else False)
    return None


def _delta(post, pre):
    zero = z3.RealVal(0) if post.is_real() else z3.IntVal(0)
    if post.eq(pre):
        return zero
    if z3.is_app_of(post, z3.Z3_OP_ITE):
        c, a, b = post.children()
        if has_ph_expr(c):
            return None
        x, y = _delta(a, pre), _delta(b, pre)
        if x is None or y is None:
            return None
        return x if x.eq(y) else z3.If(c, x, y)
    # collect the sum
    terms = []

    def flat(e, sign):
        if z3.is_add(e):
            for ch in e.children():
                flat(ch, sign)
        elif z3.is_sub(e):
            cs = e.children()
            flat(cs[0], sign)
            for ch in cs[1:]:
                flat(ch, -sign)
        else:
            terms.append((sign, e))
    flat(post, 1)
    for i, (s, t) in enumerate(terms):
        if s == 1 and t.eq(pre):
            rest = terms[:i] + terms[i + 1:]
            r = zero
            for s2, t2 in rest:
                r = (core._fadd(r, t2) if post.is_real() else r + t2) if s2 == 1 else (core._fsub(r, t2) if post.is_real() else r - t2)
            r = r if post.is_real() else z3.simplify(r)
            return None if has_ph_expr(r) else r
    r = z3.simplify(post - pre)
    return None if has_ph_expr(r) else r


def owner(cond, vars, k):
    """(d, c) with cond => vars[d] == k + c (c free of k and vars), or None."""
    conj = []

    def flat(e):
        if z3.is_and(e):
            for ch in e.children():
                flat(ch)
        else:
            conj.append(e)
    flat(z3.simplify(cond))
    ids = {k.get_id()} | {v.get_id() for v in vars}
    for e in conj:
        if not z3.is_eq(e) or not e.arg(0).is_int():
            continue
        a, b = e.children()
        for d, v in enumerate(vars):
            for x, y in ((a, b), (b, a)):
                # x - y == 0, linear with v: +1 and k: -1
                df = z3.simplify(x - y)
                c = z3.simplify(z3.substitute(df, (v, z3.IntVal(0)), (k, z3.IntVal(0))))
                if any(core._contains(c, u) for u in list(vars) + [k]):
                    continue
                if z3.simplify(df - (v - k + c)).eq(z3.IntVal(0)):
                    return d, z3.simplify(-c)
    return None


def tidy(e):
    if isinstance(e, SFlt):
        return SFlt(z3.simplify(e.e), e.nan if isinstance(e.nan, bool) else z3.simplify(e.nan))
    if isinstance(e, SCpx):
        return SCpx(z3.simplify(e.re), z3.simplify(e.im))
    if isinstance(e, SInt):
        return mkint(z3.simplify(e.e))
    return e


class Linear:
    """vars[d] == k + c"""
    def __init__(self, d, c):
        self.d, self.c = d, c

    def same(self, o):
        return isinstance(o, Linear) and self.d == o.d and term_eq(self.c, o.c)

    def own(self, k):
        return k + self.c

    def fold(self, e, k):
        return tidy(e)

    def inside(self, v, kexp):
        """(v is the row of an iteration before kexp, that iteration)"""
        return z3.simplify(z3.And(v - self.c >= 0, v - self.c < kexp)), z3.simplify(v - self.c)


class Selected:
    """vars[d] == sel(k), the k-th index satisfying a condition"""
    def __init__(self, d, df, args):
        self.d, self.df, self.args = d, df, args

    def same(self, o):
        return isinstance(o, Selected) and self.d == o.d and self.df is o.df and all(term_eq(a, b) for a, b in zip(self.args, o.args))

    def own(self, k):
        return self.df.decls['sel'](*self.args, k)

    def fold(self, e, k):
        """the position of the k-th selected index is k"""
        e = subst(e, [(self.df.decls['rank'](*self.args, self.own(k)), k)])
        return tidy(e)

    def inside(self, v, kexp):
        (x,), _ = self.df.at(self.args)
        n, vs, b = x
        here = core.boolean(subst(b, [(vs[0], v)]))
        ln = self.df.decls['len']
        ln = ln(*self.args) if isinstance(ln, z3.FuncDeclRef) else ln
        j = self.df.decls['rank'](*self.args, v)
        cs = [v >= 0, v < n, here]
        if not z3.simplify(kexp).eq(z3.simplify(ln)):
            cs.append(j < kexp)
        return z3.simplify(z3.And(*cs)), j


def owner_map(cond, vars, k):
    """The row that iteration k alone writes, or None."""
    o = owner(cond, vars, k)
    if o is not None:
        return Linear(*o)
    conj, todo = [], [z3.simplify(cond)]
    while todo:
        e = todo.pop()
        if z3.is_and(e):
            todo += e.children()
        elif z3.is_eq(e) and e.arg(0).is_int():
            conj.append(e)
    for e in conj:
        for a, b in (e.children(), reversed(e.children())):
            for d, v in enumerate(vars):
                if a.eq(v) and z3.is_app(b) and b.num_args():
                    got = eng().defs.get(b.decl().name())
                    if got is not None and got[1] == 'sel' and got[0].kind == 'filter' and b.children()[-1].eq(k) \
                            and not any(core._contains(x, u) for x in b.children()[:-1] for u in list(vars) + [k]):
                        return Selected(d, got[0], b.children()[:-1])
    return None


def others(cond, v, k, c, kexp):
    """cond with k replaced by v - c."""
    return z3.simplify(z3.substitute(cond, (k, v - c)))


# -- slots --------------------------------------------------------------------
class Slot:
    def __init__(self, key, obj):
        self.key, self.obj = key, obj


class CellSlot(Slot):
    def __init__(self, cell):
        super().__init__(('cell', id(cell)), cell)
        self.init = cell.val

    def install(self, val, wlog=()):
        c, E = self.obj, eng()
        old = (c.val, c.wlog)

        def undo():
            c.val, c.wlog = old
        E.log(undo)
        c.val = val
        c.wlog = list(wlog)

    def capture(self):
        return (self.obj.val, [(w if w is not None else (z3.BoolVal(True), None)) for w in (self.obj.wlog or [])])


class ListSlot(Slot):
    def __init__(self, lst):
        super().__init__(('list', id(lst)), lst)
        self.init = lst.content()

    def install(self, content):
        L, E = self.obj, eng()
        old_sym, old = L._sym, list(list.__iter__(L))

        def undo():
            L._sym = old_sym
            list.__init__(L, old)
        E.log(undo)
        if isinstance(content, ItemsSeq):
            L._sym = None
            list.__init__(L, content.items)
        else:
            L._sym = content
            list.__init__(L, [])

    def capture(self):
        return self.obj.content()


class DictSlot(Slot):
    """an attribute or a dict entry"""

    def __init__(self, kind_, obj, name):
        super().__init__((kind_, id(obj), name), obj)
        self.d = obj.__dict__ if kind_ == 'attr' else obj
        self.name = name
        self.init = self.d.get(name, MISSING)

    def install(self, v):
        d, name, E = self.d, self.name, eng()
        old = d.get(name, MISSING)

        def undo():
            if old is MISSING:
                d.pop(name, None)
            else:
                d[name] = old
        E.log(undo)
        if v is MISSING:
            d.pop(name, None)
        else:
            d[name] = v

    def capture(self):
        return self.d.get(self.name, MISSING)


class FieldSlot(Slot):
    """rebinding of an array-valued field of a family of objects"""

    def __init__(self, f):
        super().__init__(('field', id(f)), f)
        self.init = (f.cell, f.dims)

    def install(self, v, wlog=()):
        f, E = self.obj, eng()
        old = (f.cell, f.dims, f.wlog)

        def undo():
            f.cell, f.dims, f.wlog = old
        E.log(undo)
        f.cell, f.dims = v
        f.wlog = list(wlog)

    def capture(self):
        return (self.obj.cell, self.obj.dims, list(self.obj.wlog or []))


class Generic:
    def __init__(self, s, n, body, get, set_, lineno):
        self.s, self.n, self.body, self.get, self.set, self.lineno = s, n, body, get, set_, lineno
        self.E = eng()
        self.k = self.E.index_var('k')

    # -- one execution of the generic iteration -----------------------------
    def execute(self):
        E, k = self.E, self.k
        mark0 = len(E.touched)

        def fn():
            for key, slot in self.slots.items():
                r = self.rules.get(key)
                slot.install(r.pre(k) if r is not None else slot.init)
            loc = {}
            for nm, v in self.loc0.items():
                r = self.rules.get(('local', nm))
                loc[nm] = r.pre(k) if r is not None else v
            for nm, r in self.rules.items():
                if nm[0] == 'local' and nm[1] not in loc:
                    loc[nm[1]] = r.pre(k)
            self.set(loc)
            return self.body(self.s.get(SInt(k)))

        def capture():
            return {key: s.capture() for key, s in self.slots.items()}, self.get()
        nfacts = len(E.pc)
        E.generics.append(k)
        try:
            paths = core.explore(fn, [z3.And(k >= 0, k < integer(self.n))], capture)
        finally:
            E.generics.pop()
        touched = E.touched[mark0:]
        return paths, touched

    def run(self):
        _FLOOR.append(_CLOCK[0])
        try:
            return self.summarise()
        finally:
            _FLOOR.pop()

    def summarise(self):
        E, k = self.E, self.k
        self.since = E.serial
        self.loc0 = dict(self.get())
        self.slots = {}
        self.rules = {}
        self.decided = {}
        seen = {}                   # dict touches of earlier rounds
        # scalar locals start as unknowns
        for nm, v in self.loc0.items():
            v = conc(v)
            if core._operand(v) or isinstance(v, SStr):
                p = ph_scalar(v, nm)
                if p is not None:
                    self.rules[('local', nm)] = Unknown(p)
        stable = False
        for rnd in range(12):
            paths, touched = self.execute()
            new = self.discover(touched, seen)
            if new:
                continue
            self.ok = [p for p in paths if p.kind == 'ok' and p.value is None]
            self.exits = [p for p in paths if not (p.kind == 'ok' and p.value is None)]
            for p in self.exits:
                if p.kind == 'exc' and not getattr(p.value, '_pydv_modelled', False):
                    # a genuine python exception inside the code under
                    # verification: treat as one the code raises
                    p.value._pydv_native = True
            if not self.ok:
                break
            if self.classify():
                if stable or not seen:
                    break
                stable = True
            else:
                stable = False
        else:
            raise Unsupported(f'no loop summary found (line {self.lineno}): ' +
                              ', '.join(f'{key}:{type(r).__name__}' for key, r in self.rules.items() if isinstance(r, Unknown)))
        return self.finish()

    def discover(self, touched, seen):
        new = False
        cur = {}
        for t in touched:
            slot = None
            if isinstance(t, Cell):
                if t.serial <= self.since and ('cell', id(t)) not in self.slots:
                    slot = CellSlot(t)
                    vs = t.vars
                    p = ph_scalar(t.val, 'cell', vs)
                    if p is None:
                        raise Unsupported('array of objects written in a loop')
                    self.rules[slot.key] = Unknown(p)
            elif isinstance(t, SList):
                if t._serial <= self.since and ('list', id(t)) not in self.slots:
                    slot = ListSlot(t)
            elif isinstance(t, Field):
                if t.serial <= self.since and ('field', id(t)) not in self.slots:
                    slot = FieldSlot(t)
            else:
                key = t.key()
                if key in self.slots:
                    continue
                if t.kind == 'attr':
                    b = self.E.births.get(id(t.obj))
                    if b is not None and b[1] > self.since:
                        continue
                    if isinstance(t.obj, Family):
                        continue
                    slot = DictSlot('attr', t.obj, t.name)
                else:
                    cur[key] = t
                    if key not in seen:
                        continue
                    slot = DictSlot('item', t.obj, t.name)
                v = conc(slot.init)
                if core._operand(v) or isinstance(v, SStr):
                    self.rules[slot.key] = Unknown(ph_scalar(v, 'attr'))
            if slot is not None:
                self.slots[slot.key] = slot
                new = True
        seen.update(cur)
        return new

    def merged(self, pick):
        return core.cover(self.ok, pick, seq.merge)

    # -- closed forms ---------------------------------------------------------
    def classify(self):
        """Update the rules from the last execution; True if nothing changed."""
        changed = False
        for key, slot in self.slots.items():
            old = self.rules.get(key)
            if isinstance(slot, CellSlot):
                new = self.cell_rule(slot, old, key)
            elif isinstance(slot, ListSlot):
                new = self.list_rule(slot, old, key)
            elif isinstance(slot, FieldSlot):
                new = self.field_rule(slot, old, key)
            else:
                new = self.value_rule(slot.init, old, lambda p: p.extra[0][key], key)
            changed |= self.update(key, old, new)
        names = dict.fromkeys(list(self.loc0) + [nm for p in self.ok for nm in p.extra[1]])
        for nm in names:
            key = ('local', nm)
            old = self.rules.get(key)
            new = self.value_rule(self.loc0.get(nm, MISSING), old, lambda p: p.extra[1].get(nm, MISSING), key)
            changed |= self.update(key, old, new)
        return not changed

    def update(self, key, old, new):
        if new is None:
            if old is not None:
                del self.rules[key]
                return True
            return False
        if new is old or (old is not None and old.same(new)):
            return isinstance(old, Unknown) and not isinstance(old, (Best, Along))
        self.rules[key] = new
        return True

    def value_rule(self, init, old, pick, key):
        vals = [pick(p) for p in self.ok]
        pre = old.value if isinstance(old, Unknown) else (old.pre(self.k) if old is not None else init)
        if all(v is pre or (v is not MISSING and pre is not MISSING and same_value(v, pre)) for v in vals):
            if old is None or isinstance(old, (Unknown,)):
                return None
            if isinstance(old, Poisoned) and all(v is pre for v in vals):
                return old if init is MISSING else None
            if isinstance(old, Sum):
                return None
        if any(v is MISSING for v in vals) or any(isinstance(v, Poison) for v in vals):
            return old if isinstance(old, Poisoned) else Poisoned(f'value of {key[-1]} carried between iterations')
        scal = all(core._operand(conc(v)) or isinstance(v, (SStr, str)) for v in vals)
        try:
            post = self.merged(pick)
        except Unsupported:
            return old if isinstance(old, Poisoned) else Poisoned(f'value of {key[-1]} carried between iterations')
        if not scal or init is MISSING or not (core._operand(conc(init)) or isinstance(init, (SStr, str))):
            if init is MISSING or not scal or init is None:
                if isinstance(old, Poisoned):
                    old.post = post
                    return old
                r = Poisoned(f'value of {key[-1]} carried between iterations', post)
                r.k = self.k
                return r
        post = conc(post)
        if isinstance(old, Unknown) and key[0] == 'local':
            r = self.best_rule(init, old, vals, key)
            if r is not None:
                return r
        return self.scalar_rule(init, pre, old, post)

    def changed(self, old, vals):
        """the paths of an iteration that replace the unknown"""
        return frozenset(i for i, v in enumerate(vals) if not (v is old.value or same_value(v, old.value)))

    def best_rule(self, init, old, vals, key):
        """x replaced by v(k) exactly if g(k) and v(k) > x (or <), and what is replaced along with it."""
        ch = self.changed(old, vals)
        if not ch:
            return None
        new = seq.merge if len(ch) > 1 else None
        ps = [p for i, p in enumerate(self.ok) if i in ch]
        v = conc(vals[min(ch)] if new is None else core.cover(ps, lambda p: vals[self.ok.index(p)], new))
        if not core._operand(v) or has_ph(v):
            return None
        E = self.E
        C = z3.simplify(z3.Or(*[p.cond() for p in ps]))
        if kind(v) == 'f' and isinstance(old.value, SFlt) and old.value.nan is False and not core._is_inf(v):
            ph, ve = old.value.e, real(v)
            for which in ('max', 'min'):
                up = which == 'max'
                if core._is_inf(init) and (init > 0) == up:
                    continue
                G = z3.simplify(z3.substitute(C, (ph, ve - 1 if up else ve + 1)))
                if has_ph_expr(G):
                    continue
                nan = core.nanflag(v)
                bad = z3.Or(z3.Xor(C, z3.And(G, ve > ph if up else ve < ph)), z3.And(C, core.nanB(nan)) if nan is not False else z3.BoolVal(False))
                if z3.is_false(z3.simplify(C)) or E._quick(bad) != z3.unsat:
                    continue
                r = Best(self, old.value, init, which, G, SFlt(ve, False), ch)
                return old if isinstance(old, Best) and old.same(r) else r
        for k2, b in self.rules.items():
            if isinstance(b, Best) and k2 != key and \
                    ch == self.changed(b, [p.extra[1].get(k2[1], MISSING) for p in self.ok]):
                r = Along(self, old.value, init, k2, v)
                return old if isinstance(old, Along) and old.same(r) else r
        return None

    def scalar_rule(self, init, pre, old, post):
        if not has_ph(post):
            g = delta(post, pre) if isinstance(old, (Unknown, Sum)) and kind(post) in 'fic' else None
            if isinstance(old, Sum) and g is not None:
                if same_value(g, old.g):
                    return old
            if isinstance(old, Sum):
                # expressed through the closed form itself
                return Sum(self, init, g) if g is not None and not old.inside(g) else Last(self, init, post)
            return Last(self, init, post)
        if isinstance(old, Unknown) and kind(post) in 'fic':
            g = delta(post, pre)
            if g is not None and not has_ph(g):
                return Sum(self, init, g)
        return old if isinstance(old, Unknown) else Unknown(ph_scalar(post, 'again'))

    def cell_rule(self, slot, old, key):
        cell, k = slot.obj, self.k
        caps = [p.extra[0][key] for p in self.ok]
        pre = old.pre(k) if old is not None else slot.init
        writes = [(p, w) for p, (val, wl) in zip(self.ok, caps) for w in wl]
        if not writes:
            return None
        post = self.merged(lambda p: p.extra[0][key][0])
        owners = [owner_map(w[0], cell.vars, k) for p, w in writes]
        if all(o is not None for o in owners) and all(o.same(owners[0]) for o in owners):
            m = owners[0]
            row = m.own(k)
            e = m.fold(subst(post, [(cell.vars[m.d], row)]), k)
            wl = []
            for p, w in writes:
                q = z3.simplify(z3.And(p.cond(), w[0]))
                if not any(q.eq(x) for x in wl):
                    wl.append(q)
            if isinstance(old, Rows) and old.m.same(m):
                if has_ph(e):
                    return Unknown(ph_scalar(slot.init, 'cell', cell.vars))
                return old if same_value(old.e, e) else Rows(self, slot, m, e, wl)
            if isinstance(old, Past) and old.m.same(m):
                return old if has_ph(e) else Rows(self, slot, m, e, wl)
            if isinstance(old, Unknown):
                # entries of other rows stay unknown; the own row is the initial one
                e2 = subst_ph_row(e, old.value, slot.init, cell.vars, m.d, row)
                if e2 is not None and not has_ph(e2):
                    return Rows(self, slot, m, e2, wl)
                if not (isinstance(m, Selected) and (has_ph_expr(*m.args) or has_ph_def(m.df))):
                    return Past(self, slot, m, old.value)
                return old
            return Unknown(ph_scalar(slot.init, 'cell', cell.vars))
        if any(core._contains(z3.simplify(w[0]), k) for p, w in writes):
            return self.scatter_rule(slot, old, post, writes)
        wl = []
        for p, w in writes:
            q = z3.simplify(w[0])
            if not any(q.eq(x) for x in wl):
                wl.append(q)
        r = self.scalar_rule(slot.init, pre, old, post)
        if isinstance(r, (Sum, Last)):
            r.wl = wl
        return r

    def scatter_rule(self, slot, old, post, writes):
        raise Unsupported(f'array write pattern in a loop (line {self.lineno})')

    def field_rule(self, slot, old, key):
        f, k = slot.obj, self.k
        caps = [p.extra[0][key] for p in self.ok]
        if not any(c[2] for c in caps):
            return None
        if len(self.ok) != 1 or len(caps[0][2]) != 1:
            # several paths: merge them
            pass
        d0 = None
        v0s = caps[0][0].vars
        for c in caps:
            for w in c[2]:
                o = owner(w[0], [w[3][0]], k)
                if o is None or (d0 is not None and not term_eq(o[1], d0)):
                    raise Unsupported('array field rebound for another member in a loop')
                d0 = o[1]
        icell, idims = slot.init

        def at_row(cell):
            pairs = list(zip(cell.vars, [k + d0] + list(icell.vars[1:])))
            return subst(cell.val, pairs)
        e = at_row(caps[-1][0])
        ds = [subst(d.val, [(d.vars[0], k + d0)]) for d in caps[-1][1]]
        for p, c in reversed(list(zip(self.ok, caps))[:-1]):
            e = ite(p.cond(), at_row(c[0]), e)
            ds = [ite(p.cond(), subst(d.val, [(d.vars[0], k + d0)]), x) for d, x in zip(c[1], ds)]
        e, ds = tidy(e), [tidy(x) for x in ds]
        new = FieldRows(self, slot, d0, e, ds)
        if has_ph(e) or any(has_ph(x) for x in ds):
            if old is None:
                return new
            raise Unsupported('array field of a family: no closed form')
        return new

    def list_rule(self, slot, old, key):
        k = self.k
        pre = old.pre(k) if old is not None else slot.init
        conds, item = [], None
        apps = []
        for p in self.ok:
            post = p.extra[0][key]
            x = appended(post, pre)
            if x is None:
                raise Unsupported(f'list changed otherwise than by appending in a loop (line {self.lineno})')
            if len(x) > 1:
                raise Unsupported('several appends in one iteration')
            apps.append((p, x))
        if not any(x for p, x in apps):
            return None
        item = {id(p): x[0] for p, x in apps if x}
        val = core.cover([p for p, x in apps if x], lambda p: item[id(p)], seq.merge)
        if len(item) == len(apps):
            cond = None
        else:
            cond = core.boolean(core.cover(self.ok, lambda p: id(p) in item))
            cond = z3.simplify(cond)
        new = Append(self, slot.init, val, cond)
        if old is not None and old.same(new):
            return old
        if cond is not None and has_ph_expr(cond) or has_ph(val):
            new.dirty = True
        return new

    # -- after the loop -------------------------------------------------------
    def install(self, kexp, final):
        """Set the state before iteration kexp."""
        E = self.E
        for key, slot in self.slots.items():
            r = self.rules.get(key)
            if r is None:
                continue
            if isinstance(slot, CellSlot):
                old = slot.obj.wlog
                if E.depth:
                    wl = list(old or []) + r.writes(slot, kexp)
                    E.touched.append(slot.obj)
                else:
                    wl = old
                slot.install(r.pre(kexp), wl or ())
                if not E.depth:
                    slot.obj.wlog = None
            elif isinstance(slot, FieldSlot):
                if E.depth:
                    E.touched.append(slot.obj)
                    raise Unsupported('nested rebinding of an array field')
                slot.install(r.pre(kexp))
            else:
                if E.depth:
                    from .rt import Touch
                    E.touched.append(slot.obj if isinstance(slot, ListSlot) else
                                     Touch(slot.key[0], slot.obj, slot.name))
                slot.install(r.pre(kexp))
        loc = dict(self.loc0)
        for key, r in self.rules.items():
            if key[0] == 'local':
                loc[key[1]] = r.pre(kexp) if not final else r.final(integer(self.n))
        self.set(loc)

    def finish(self):
        E, k, n = self.E, self.k, self.n
        nz = integer(n)
        if self.exits:
            ex = z3.simplify(z3.Or(*[p.cond() for p in self.exits]))
            if has_ph_expr(ex):
                raise Unsupported('exit condition of a loop has no closed form')
            q = core.forall(n, lambda i: mkbool(z3.simplify(z3.Not(z3.substitute(ex, (k, integer(i)))))))
            if self.ok == []:
                q = False
            if q is not True and (q is False or not E.branch(boolean(q))):
                if q is False or not isinstance(q, SBool):
                    w = SInt(z3.IntVal(0))
                    E.assume(z3.simplify(z3.substitute(ex, (k, z3.IntVal(0)))))
                else:
                    base = q
                    w = core.forall_witness(base)
                    E.assume(z3.And(w.e >= 0, w.e < nz))
                    E.assume(z3.simplify(z3.substitute(ex, (k, w.e))))
                we = z3.simplify(w.e)
                self.install(we, False)
                r = self.body(self.s.get(mkint(we)))
                if r is None:
                    raise Infeasible()
                return r
            if q is True and self.exits and not self.ok:
                raise Infeasible()
        self.install(nz, True)
        return None


def appended(post, pre):
    """items appended to pre to get post, or None"""
    if post is pre or same_value(post, pre):
        return []
    if isinstance(pre, ItemsSeq) and isinstance(post, ItemsSeq):
        m = len(pre.items)
        if len(post.items) >= m and all(same_value(a, b) for a, b in zip(post.items, pre.items)):
            return post.items[m:]
        return None
    if isinstance(post, ConcatSeq) and isinstance(post.b, ItemsSeq):
        r = appended(post.a, pre)
        return None if r is None else r + list(post.b.items)
    return None


def subst_ph_row(e, own, init, vars, d, row):
    """Replace reads of the unknown content at the own row by the initial
    content; None if another row is read."""
    def one(x, p, i):
        if not z3.is_expr(x):
            return x
        f = p.decl()
        apps = {}
        todo, seen = [x], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().eq(f):
                apps[t.get_id()] = t
            todo.extend(t.children())
        pairs = []
        for t in apps.values():
            if not term_eq(t.arg(d), row):
                return None
            pairs.append((t, z3.substitute(i, *list(zip(vars, t.children())))))
        return z3.substitute(x, *pairs) if pairs else x

    def parts(v):
        if kind(v) == 'c':
            c = core.cpx(v)
            return [c.re, c.im]
        if kind(v) == 'f':
            return [core.real(v)] + ([core.nanB(core.nanflag(v))])
        if kind(v) == 'b':
            return [boolean(v)]
        if kind(v) == 's':
            return [SStr.of(v)]
        return [integer(v)]
    if kind(own) != kind(init):
        init = nd.cast(init, kind(own)) if kind(own) in 'fic' else init
    po, pi = parts(own), parts(init)
    if not is_sym(e):
        return e
    es = parts(e)
    for o, i in zip(po, pi):
        if z3.is_app(o) and o.num_args() and o.decl().name() in _PH:
            es = [one(x, o, i) for x in es]
            if any(x is None for x in es):
                return None
    k = kind(e)
    if k == 'c':
        return SCpx(es[0], es[1])
    if k == 'f':
        nn = z3.simplify(es[1])
        return SFlt(es[0], True if z3.is_true(nn) else False if z3.is_false(nn) else nn)
    if k == 'b':
        return mkbool(z3.simplify(es[0]))
    if k == 's':
        return SStr(es[0])
    return core.simp_int(es[0])


# -- rules ----------------------------------------------------------------------
class Rule:
    wl = ()

    def final(self, n):
        return self.pre(n)

    def writes(self, slot, kexp):
        return [(w, None) for w in self.wl]


class Unknown(Rule):
    def __init__(self, value):
        self.value = value

    def pre(self, k):
        return self.value

    def same(self, o):
        return type(o) is Unknown and o.value is self.value


class Poisoned(Rule):
    def __init__(self, why, post=MISSING):
        self.p, self.post = Poison(why), post

    def pre(self, k):
        return self.p

    def same(self, o):
        return isinstance(o, Poisoned)

    def final(self, n):
        g = getattr(self, 'g', None)
        if self.post is MISSING:
            return self.p
        v = conc(self.post)
        if isinstance(v, (Sym, Nd, tuple, str, bool, int, float, complex)) or v is None or seq.is_proxy(v):
            if has_ph(v):
                return self.p
            r = vsubst(v, [(self.k, z3.simplify(n - 1))]) if getattr(self, 'k', None) is not None else self.p
            return r
        return self.p


class Sum(Rule):
    def __init__(self, G, init, g):
        self.G, self.init, self.g = G, init, g

    def pre(self, kexp):
        k = self.G.k
        t = core.total(mkint(z3.simplify(kexp)), lambda j: subst(self.g, [(k, integer(j))]))
        return core.add(self.init, t)

    def same(self, o):
        return isinstance(o, Sum) and same_value(self.g, o.g)

    def inside(self, g):
        return False


class Last(Rule):
    def __init__(self, G, init, e):
        self.G, self.init, self.e = G, init, e

    def pre(self, kexp):
        k = self.G.k
        kexp = z3.simplify(kexp)
        return ite(kexp <= 0, self.init, subst(self.e, [(k, z3.simplify(kexp - 1))]))

    def same(self, o):
        return isinstance(o, Last) and same_value(self.e, o.e)


class Rows(Rule):
    def __init__(self, G, slot, m, e, wl):
        self.G, self.slot, self.m, self.e, self.wconds = G, slot, m, e, wl

    def _in(self, kexp):
        return self.m.inside(self.slot.obj.vars[self.m.d], kexp)

    def pre(self, kexp):
        inside, j = self._in(kexp)
        return ite(inside, subst(self.e, [(self.G.k, j)]), self.slot.init)

    def same(self, o):
        return isinstance(o, Rows) and self.m.same(o.m) and same_value(self.e, o.e)

    def writes(self, slot, kexp):
        inside, j = self._in(kexp)
        return [(z3.simplify(z3.And(inside, z3.substitute(w, (self.G.k, j)))), None) for w in self.wconds]


class Past(Unknown):
    """a guess: rows of earlier iterations are unknown, all others as they were"""
    def __init__(self, G, slot, m, value):
        self.G, self.slot, self.m, self.value = G, slot, m, value

    def pre(self, kexp):
        inside, j = self.m.inside(self.slot.obj.vars[self.m.d], kexp)
        return ite(inside, self.value, self.slot.init)

    def same(self, o):
        return isinstance(o, Past) and self.m.same(o.m)


class Best(Unknown):
    """the first of the largest (smallest) values v(j) among the iterations satisfying g, if beyond the initial value"""
    def __init__(self, G, value, init, which, g, v, ch):
        self.G, self.value, self.init, self.which, self.g, self.v, self.ch = G, value, init, which, g, v, ch
        self.found = {}

    def same(self, o):
        return isinstance(o, Best) and self.which == o.which and self.g.eq(o.g) and same_value(self.v, o.v)

    def winner(self, kexp):
        """the iteration the value is from, or None if it is still the initial one"""
        E, k = self.G.E, self.G.k
        kexp = z3.simplify(kexp)
        if kexp.get_id() in self.found:
            return self.found[kexp.get_id()][1]
        if z3.is_true(self.g):
            ln, sel = mkint(kexp), lambda i: integer(i)
        else:
            ln, s, _ = core.filtered(mkint(kexp), lambda i: mkbool(z3.simplify(z3.substitute(self.g, (k, integer(i))))))
            sel = lambda i: integer(s(i))
        at = None
        if E.branch(integer(ln) >= 1):
            val, a = core.extremum(ln, lambda i: subst(self.v, [(k, sel(i))]), self.which)
            if core._is_inf(self.init) or E.branch(boolean(core.compare('>' if self.which == 'max' else '<', val, self.init))):
                at = sel(a)
        self.found[kexp.get_id()] = (kexp, at)
        return at

    def pre(self, kexp):
        if kexp.eq(self.G.k):
            return self.value
        at = self.winner(kexp)
        return self.init if at is None else tidy(subst(self.v, [(self.G.k, at)]))

    def final(self, n):
        return self.pre(n)


class Along(Unknown):
    """replaced whenever the value of a Best rule is"""
    def __init__(self, G, value, init, of, e):
        self.G, self.value, self.init, self.of, self.e = G, value, init, of, e

    def same(self, o):
        return isinstance(o, Along) and self.of == o.of and same_value(self.e, o.e)

    def pre(self, kexp):
        if kexp.eq(self.G.k):
            return self.value
        b = self.G.rules.get(self.of)
        if not isinstance(b, Best):
            raise Unsupported('value replaced along with one that has no closed form')
        at = b.winner(kexp)
        return self.init if at is None else subst(self.e, [(self.G.k, at)])

    def final(self, n):
        return self.pre(n)


class FieldRows(Rule):
    def __init__(self, G, slot, c, e, ds):
        self.G, self.slot, self.c, self.e, self.ds = G, slot, c, e, ds

    def pre(self, kexp):
        icell, idims = self.slot.init
        k = self.G.k

        def row(cell, e):
            v = cell.vars[0]
            inside = z3.simplify(z3.And(v - self.c >= 0, v - self.c < kexp))
            r = Cell(cell.vars, ite(inside, subst(e, [(k, z3.simplify(v - self.c))]), cell.val), cell.shape, cell.dtype)
            return r
        return row(icell, self.e), [row(d, x) for d, x in zip(idims, self.ds)]

    def same(self, o):
        return isinstance(o, FieldRows) and term_eq(self.c, o.c) and same_value(self.e, o.e) and \
            all(same_value(x, y) for x, y in zip(self.ds, o.ds))


class Append(Rule):
    dirty = False

    def __init__(self, G, init, x, cond):
        self.G, self.init, self.x, self.cond = G, init, x, cond
        self._cache = {}

    def pre(self, kexp):
        kexp = z3.simplify(kexp)
        got = self._cache.get(kexp.get_id())
        if got is not None:
            return got[1]
        G, k = self.G, self.G.k
        m = mkint(kexp)
        if self.cond is None:
            tail = seq_of(self.x, k, m, G.since)
        else:
            ln, sel, rank = core.filtered(m, lambda i: mkbool(z3.simplify(z3.substitute(self.cond, (k, integer(i))))))
            base = seq_of(self.x, k, G.n, G.since)
            tail = SelSeq(base, ln, sel)
        r = tail if (isinstance(self.init, ItemsSeq) and not self.init.items) else ConcatSeq(self.init, tail)
        self._cache[kexp.get_id()] = (kexp, r)
        return r

    def same(self, o):
        if not isinstance(o, Append) or (self.cond is None) != (o.cond is None):
            return False
        if self.cond is not None and not term_eq(self.cond, o.cond):
            return False
        return same_value(self.x, o.x)


class SelSeq(Seq):
    """base[sel(i)], i < ln"""

    def __init__(self, base, ln, sel):
        self.base, self.n, self.sel = base, ln, sel

    def get(self, i):
        return self.base.get(self.sel(i))

    def subst(self, pairs):
        r = SelSeq(self.base.subst(pairs), subst(self.n, pairs), None)
        old = self.sel
        v = z3.Int(eng().fresh('sub'))

        def sel(i):
            t = subst(old(SInt(v)), pairs)
            return subst(t, [(v, integer(i))])
        r.sel = sel
        return r

    def exprs(self, out):
        seq.exprs_in(self.n, out)
        self.base.exprs(out)
