"""Symbolic scalars, path exploration and the registry of definitional symbols.

Every value the instrumented code computes is a first-order z3 term.  Anything
that quantifies over an index (for-all facts, sums, extrema, filters, sorts,
opaque array operations) is *reified*: it becomes an application of a fresh
function symbol whose parameters are the free index variables of its body, and
whose defining axioms are instantiated on ground terms when an obligation is
discharged (see prover.py).  Terms can therefore always be generalised over, or
specialised at, an index by plain substitution.
"""
import hashlib
import re
import sys
import time
from fractions import Fraction
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

z3.set_param('model.completion', True)


class Signal(BaseException):
    """Engine control flow; never caught by the code under verification."""


class Unsupported(Signal):
    """The code left the fragment the verifier can decide."""


class Infeasible(Signal):
    """The current path is contradictory."""


def mark(exc):
    """Mark an exception as one the code (or a modelled operation) raises."""
    if isinstance(exc, type):
        exc = exc()
    try:
        exc._pydv_modelled = True
    except Exception:
        pass
    return exc


# ---------------------------------------------------------------------------
# engine
# ---------------------------------------------------------------------------
def has_var(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_var(x):
            return True
        todo += x.children()
    return False


class LinSolver:
    """Quick feasibility: a linear abstraction first; if it does not refute,
    the full formula with a short limit."""

    def __init__(self, ms):
        from .prover import Abstractor
        self.ab = Abstractor()
        self.s = z3.Solver()
        self.s.set('timeout', ms)
        self.full = z3.Solver()
        self.full.set('timeout', min(ms, 120))
        self.cache = {}

    def add(self, e):
        a = self.ab(e)
        self.s.add(a)
        if self.ab.facts:
            fs, self.ab.facts = self.ab.facts, []
            self.keepfacts(fs)
        self.full.add(e)

    def keepfacts(self, fs):
        # sign facts are definitional; they must survive pops
        self.base = getattr(self, 'base', [])
        self.base += fs
        self.s.add(*fs)

    def push(self):
        self.s.push()
        self.full.push()
        self.marks = getattr(self, 'marks', [])
        self.marks.append(len(getattr(self, 'base', [])))

    def pop(self):
        self.s.pop()
        self.full.pop()
        m = self.marks.pop()
        b = getattr(self, 'base', [])
        if len(b) > m:
            self.s.add(*b[m:])

    def check(self):
        r = self.s.check()
        if r == z3.unsat or not self.ab.used:
            return r
        return self.full.check()


class Engine:
    def __init__(self, prefix=(), feas_ms=400):
        self.prefix = list(prefix)
        self.steps = []              # the same, with the conditions
        self.decisions = []          # list of (taken, other_possible)
        self.pc = []                 # z3 Bool terms
        self.stack = []              # saved local contexts
        self.starts = [0]            # serial number when each began
        self.nfresh = 0
        self.defs = {}               # decl name -> Def
        self.defcache = {}
        self.generics = []           # generic iterations being executed
        self.index_consts = set()    # ids of flagged index constants
        self.base = {}               # base array name -> BaseArray info
        self.obligations = []        # Obligation
        self.notes = []
        self.feas_ms = feas_ms
        self.solver = LinSolver(feas_ms)
        self.nbranch = 0
        self.side = []               # definitional facts (always true)
        self.journal = []            # undo closures
        self.max_branches = 4000
        self.assumptions = {}        # assumed contracts used: name -> count
        self.inputs = []             # harness inputs for model extraction
        self.PI = self.real_const('PI')
        self.fact(z3.And(self.PI > z3.RealVal('3.14159'), self.PI < z3.RealVal('3.1416')))
        self.depth = 0
        self.serial = 0
        self.touched = []
        self.births = {}
        self._mentioned = {}
        self.quick_cache = {}
        self.ranged = {}
        self.bounds = {}             # input array name -> bound of an element, as assumed

    # -- symbols ----------------------------------------------------------
    def fresh(self, base):
        self.nfresh += 1
        return f"{base}!{self.nfresh}"

    def int_const(self, base):
        return z3.Int(self.fresh(base))

    def real_const(self, base):
        return z3.Real(self.fresh(base))

    def index_var(self, base='i'):
        v = z3.Int(self.fresh(base))
        self.index_consts.add(v.get_id())
        self._keep = getattr(self, '_keep', [])
        self._keep.append(v)
        return v

    def free_index(self, *exprs):
        """Index variables free in the expressions, in a stable order."""
        out = {}
        seen = set()
        todo = [e for e in exprs if z3.is_expr(e)]
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(e):
                if i in self.index_consts:
                    out[e.decl().name()] = e
            else:
                todo.extend(e.children())
        return [out[k] for k in sorted(out, key=lambda s: (len(s), s))]

    # -- facts ------------------------------------------------------------
    def fact(self, e):
        """A definitional fact (no restriction of the inputs)."""
        self.side.append(e)
        self.solver.add(e)

    def assume(self, e):
        if isinstance(e, SBool):
            e = e.e
        if e is True:
            return
        if e is False:
            raise Infeasible()
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.pc.append(e)
        self.solver.add(e)

    def _quick(self, e):
        """'unsat' if pc & e is quickly refuted."""
        self.solver.push()
        self.solver.add(e)
        for f in self._instances(e):
            self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        return r

    def _instances(self, e):
        """Assumed bounds of the input arrays, and the ranges of selected indices, at the elements e mentions."""
        out, seen, todo = [], set(), [e]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                continue
            if z3.is_app(t):
                todo += t.children()
                if not t.num_args():
                    continue
                nm = t.decl().name()
                f = self.bounds.get(nm)
                if f is not None and not any(has_var(a) for a in t.children()):
                    out.append(f(*t.children()))
                got = self.defs.get(nm)
                if got is not None and got[1] in ('sel', 'perm', 'a') and not has_var(t):
                    d, rn = got
                    args = t.children()[:len(d.params)]
                    (x,), _ = d.at(args)
                    i = t.children()[-1]
                    if rn == 'a':
                        pre = x[0] >= 1
                    elif rn == 'perm':
                        pre = z3.And(i >= 0, i < x[0])
                    else:
                        ln = d.decls['len']
                        pre = z3.And(i >= 0, i < (ln(*args) if isinstance(ln, z3.FuncDeclRef) else ln))
                    then = [t >= 0, t < x[0]]
                    if rn == 'sel':
                        then.append(z3.simplify(boolean(subst(x[2], [(x[1][0], t)]))))
                        todo.append(then[-1])
                    out.append(z3.Implies(pre, z3.And(*then)))
        return out

    def known(self, e):
        """True / False if e is quickly decided under pc, else None."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self._quick(z3.Not(e)) == z3.unsat:
            return True
        if self._quick(e) == z3.unsat:
            return False
        return None

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.nbranch += 1
        if self.nbranch > self.max_branches:
            raise Unsupported('too many branches on one path')
        pos = len(self.decisions)
        if pos < len(self.prefix):
            taken, forced = self.prefix[pos]
            if forced is True and not self.depth and pos == len(self.prefix) - 1 and DEFINED.match(str(e.decl())):
                # the other way round of a defined condition: is there such a case at all?
                from . import prover
                if prover.discharge(self, list(self.pc), e, deadline=time.time() + 1.5).status == 'proved':
                    raise Infeasible()
            self._decide(e, taken, forced)
            return taken
        f = self._quick(z3.Not(e))
        if f == z3.unsat:
            self._decide(e, True, 'implied')
            return True
        t = self._quick(e)
        if t == z3.unsat:
            self._decide(e, False, 'implied')
            return False
        self._decide(e, True, False)
        return True

    def _decide(self, e, taken, forced):
        self.decisions.append((taken, forced))
        self.steps.append((e, taken, forced == 'implied'))
        x = e if taken else z3.Not(e)
        self.pc.append(x)
        self.solver.add(x)

    # -- local exploration (generic loop iterations) ------------------------
    def push_context(self, prefix):
        self.stack.append((self.prefix, self.decisions, self.steps, len(self.pc), len(self.journal), self.nbranch, len(self.side)))
        self.prefix, self.decisions, self.steps = list(prefix), [], []
        self.starts.append(self.serial)
        self.solver.push()
        self.depth += 1

    def pop_context(self):
        """Leave the local context, undoing every heap write made in it."""
        prefix, decisions, steps, npc, nj, nb, ns = self.stack.pop()
        self.starts.pop()
        local = (self.decisions, self.pc[npc:])
        while len(self.journal) > nj:
            self.journal.pop()()
        self.prefix, self.decisions, self.steps = prefix, decisions, steps
        del self.pc[npc:]
        self.solver.pop()
        # definitional facts added inside must survive the pop
        for e in self.side[ns:]:
            self.solver.add(e)
        self.depth -= 1
        return local

    def log(self, undo, born=None):
        """Remember how to undo a write; what was born in the local context goes away with it."""
        if self.depth and not (born is not None and born > self.starts[-1]):
            self.journal.append(undo)


def next_prefix(decisions):
    """Depth-first successor of a decision sequence, or None."""
    d = list(decisions)
    while d:
        taken, forced = d.pop()
        if taken and not forced:
            return d + [(False, True)]
    return None


class Path:
    __slots__ = ('pc', 'kind', 'value', 'extra', 'steps')

    def __init__(self, pc, kind, value, extra=None, steps=None):
        self.pc, self.kind, self.value, self.extra = pc, kind, value, extra
        # the decisions alone, when nothing else was assumed on the way
        self.steps = [(e, t) for e, t, implied in steps if not implied] if steps is not None and len(steps) == len(pc) else None

    def cond(self):
        if self.steps is not None:
            pc = [e if t else z3.Not(e) for e, t in self.steps]
        else:
            pc = self.pc
        return z3.simplify(z3.And(*pc)) if pc else z3.BoolVal(True)


def cover(paths, pick, merge=None):
    """The value pick(path), over all the paths of one exploration."""
    merge = merge or ite
    paths = list(paths)

    def tree(ps, d):
        if len(ps) == 1:
            return pick(ps[0])
        here = [p for p in ps if len(p.steps) > d]
        if len(here) != len(ps) or any(not p.steps[d][0].eq(ps[0].steps[d][0]) for p in ps):
            return chain(ps)
        yes, no = [p for p in ps if p.steps[d][1]], [p for p in ps if not p.steps[d][1]]
        if not yes or not no:
            return tree(ps, d + 1)
        return merge(ps[0].steps[d][0], tree(yes, d + 1), tree(no, d + 1))

    def chain(ps):
        r = pick(ps[-1])
        for p in reversed(ps[:-1]):
            r = merge(p.cond(), pick(p), r)
        return r
    if any(p.steps is None for p in paths):
        return chain(paths)
    return tree(paths, 0)


def explore(fn, assume=(), capture=None, limit=200):
    """Run fn on every local path; heap effects are undone after each."""
    E = eng()
    out = []
    prefix = []
    while prefix is not None:
        if len(out) > limit:
            raise Unsupported('too many local paths')
        E.push_context(prefix)
        feasible = True
        try:
            for a in assume:
                E.pc.append(a)
                E.solver.add(a)
            skip = len(E.pc)
            try:
                kind_, val = 'ok', fn()
            except Infeasible:
                feasible = False
                kind_, val = 'inf', None
            except Exception as ex:
                kind_, val = 'exc', ex
                if getattr(ex, '_pydv_modelled', False) and E.solver.check() == z3.unsat:
                    feasible, kind_, val = False, 'inf', None
            extra = capture() if (capture and feasible) else None
            pc = list(E.pc[skip:])
        finally:
            decs = list(E.decisions)
            steps = list(E.steps)
            E.pop_context()
        if feasible:
            out.append(Path(pc, kind_, val, extra, steps))
        prefix = next_prefix(decs)
    return out


def body(fn, vs, ranges=(), given=()):
    """Scalar value of fn(*vs) under bound variables: all local paths merged."""
    E = eng()
    asm = [z3.And(v >= 0, v < n) for v, n in zip(vs, ranges)] + list(given)
    nj = len(E.touched)
    paths = explore(lambda: fn(*[SInt(v) for v in vs]), asm)
    if not paths:
        return 0
    for p in paths:
        if p.kind == 'exc':
            if getattr(p.value, '_pydv_modelled', False):
                raise Unsupported(f'exception under a quantifier: {p.value!r}')
            raise p.value
    r = cover(paths, lambda p: p.value)
    if kind(r) in 'bifc' and is_sym(r):
        # conditions that hold throughout the range are left out
        facts = here(asm)
        known = [(x, z3.BoolVal(t)) for x, t in facts]
        if known:
            r = subst(r, known)
        if is_sym(r) and any(has_ite(x) for x in exprs_of(r)):
            r = tidied(r)
            for again in range(2):
                known = implied(exprs_of(r), facts)
                if not known:
                    break
                r = tidied(subst(r, known))
    return r


def implied(es, facts):
    from . import prover
    return prover.implied(es, facts)


def here(asm=()):
    """(atom, truth) that the path so far and asm assert outright"""
    from .prover import settled
    E = eng()
    memo = E.__dict__.setdefault('settled_memo', {})
    key = tuple(x.get_id() for x in E.pc)
    got = memo.get(key)
    if got is None:
        if len(memo) > 200:
            memo.clear()
        got = memo[key] = (list(E.pc), settled([z3.simplify(x) for x in E.pc]))
    return settled([z3.simplify(a) for a in asm]) + got[1]


def tidied(r):
    if isinstance(r, SCpx):
        return SCpx(z3.simplify(r.re), z3.simplify(r.im))
    if isinstance(r, SFlt):
        return SFlt(z3.simplify(r.e), z3.simplify(r.nan) if z3.is_expr(r.nan) else r.nan)
    if isinstance(r, (SInt, SBool)):
        return type(r)(z3.simplify(r.e))
    return r


def in_short(e, asm=()):
    """a term as it is here, without the conditions that are decided"""
    e = z3.simplify(e)
    for x in range(2):
        if not has_ite(e):
            return e
        facts = here(asm)
        known = [(x, z3.BoolVal(t)) for x, t in facts]
        n = z3.simplify(z3.substitute(e, *known)) if known else e
        known = implied([n], facts)
        n = z3.simplify(z3.substitute(n, *known)) if known else n
        if n.eq(e):
            return e
        e = n
    return e


def has_ite(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        todo.extend(x.children())
    return False


ENG = None


def eng():
    if ENG is None:
        raise RuntimeError('no engine active')
    return ENG


def set_engine(e):
    global ENG
    ENG = e


# ---------------------------------------------------------------------------
# scalars
# ---------------------------------------------------------------------------
def frac(x):
    return Fraction(repr(float(x))) if not isinstance(x, (int, Fraction)) else Fraction(x)


def _is_inf(x):
    return isinstance(x, float) and x in (float('inf'), float('-inf'))


def _isnum(x):
    import numpy as np
    return isinstance(x, (int, float, complex, Fraction, np.number, np.bool_))


def conc(x):
    """numpy scalar -> python scalar"""
    import numpy as np
    if isinstance(x, (np.generic,)):
        return x.item()
    return x


class Sym:
    __array_ufunc__ = None
    __slots__ = ()

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __str__(self):
        return '<sym>'
    __repr__ = __str__

    def __format__(self, spec):
        return '<sym>'

    # numpy scalar protocol used by the code
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        from . import nd
        return nd.cast(self, nd.dtype_of(dt))

    def flatten(self):
        from . import nd
        return nd.asarray(self).flatten()


def real(x):
    """z3 Real of a python/symbolic real scalar."""
    x = conc(x)
    if isinstance(x, SFlt):
        return x.e
    if isinstance(x, SInt):
        return z3.ToReal(x.e)
    if isinstance(x, SBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(str(Fraction(x)))
    if isinstance(x, float):
        if x != x:
            return z3.RealVal(0)
        if _is_inf(x):
            raise Unsupported('infinity as a term')
        return z3.RealVal(str(frac(x)))
    raise Unsupported(f'real of {type(x).__name__}')


def nanflag(x):
    x = conc(x)
    if isinstance(x, SFlt):
        return x.nan
    if isinstance(x, float) and x != x:
        return True
    return False


def integer(x):
    x = conc(x)
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x) and z3.is_int(x):
        return x
    raise Unsupported(f'integer of {type(x).__name__}')


def boolean(x):
    x = conc(x)
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x) and z3.is_bool(x):
        return x
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, SFlt):
        return z3.Or(x.e != 0, nanB(x.nan))
    if isinstance(x, (int, float)):
        return z3.BoolVal(bool(x))
    raise Unsupported(f'boolean of {type(x).__name__}')


def nanB(n):
    return n if z3.is_expr(n) else z3.BoolVal(bool(n))


def nor(*ns):
    ns = [n for n in ns if not (n is False)]
    if any(n is True for n in ns):
        return True
    if not ns:
        return False
    if len(ns) == 1:
        return ns[0]
    r = z3.simplify(z3.Or(*ns))
    return False if z3.is_false(r) else (True if z3.is_true(r) else r)


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def simp_int(e):
    e = z3.simplify(e)
    return mkint(e)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def is_sym(x):
    return isinstance(x, Sym)


def kind(x):
    x = conc(x)
    if isinstance(x, (SCpx, complex)):
        return 'c'
    if isinstance(x, (SFlt, float, Fraction)):
        return 'f'
    if isinstance(x, (SBool, bool)):
        return 'b'
    if isinstance(x, (SInt, int)):
        return 'i'
    if isinstance(x, SStr):
        return 's'
    return 'O'


def _operand(o):
    """True if o is a scalar we can combine with."""
    return is_sym(o) or _isnum(o)


def _fmul(a, b):
    if z3.is_rational_value(a):
        if a.numerator_as_long() == 0:
            return a
        if a.numerator_as_long() == 1 and a.denominator_as_long() == 1:
            return b
    if z3.is_rational_value(b):
        return _fmul(b, a) if not z3.is_rational_value(a) else z3.simplify(a * b)
    if z3.is_app_of(a, z3.Z3_OP_DIV) or z3.is_app_of(b, z3.Z3_OP_DIV):
        return _cancel(a * b)
    return a * b


def _monofac(e, sign, out):
    """e as a product of atoms: out gets (atom, exponent); coefficient returned"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long()) if sign > 0 or e.numerator_as_long() != 0 else None
    if z3.is_mul(e):
        c = Fraction(1)
        for ch in e.children():
            x = _monofac(ch, sign, out)
            if x is None:
                return None
            c *= x
        return c
    if z3.is_app_of(e, z3.Z3_OP_DIV):
        x = _monofac(e.arg(0), sign, out)
        y = _monofac(e.arg(1), -sign, out)
        if x is None or y is None or y == 0:
            return None
        return x / y
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        x = _monofac(e.arg(0), sign, out)
        return None if x is None else -x
    out.append((e, sign))
    return Fraction(1)


def _nonzero_part(f):
    """x, when f says that x is positive or not zero"""
    if z3.is_not(f):
        g = f.arg(0)
        if z3.is_eq(g) or z3.is_le(g):
            x, y = g.children()
            if z3.is_rational_value(y) and y.numerator_as_long() == 0:
                return x
            if z3.is_eq(g) and z3.is_rational_value(x) and x.numerator_as_long() == 0:
                return y
    return None


def nonzero(a):
    """Is the real term a known not to be zero, by a fact about it or about all of its kind?"""
    if ENG.known(a != 0) is True:
        return True
    for f in ENG.pc:
        if z3.is_const(f) and DEFINED.match(f.decl().name()) and f.decl().name() in ENG.defs:
            d, rn = ENG.defs[f.decl().name()]
            if rn != 'Q' or d.params or len(d.arrays) != 1:
                continue
            n, vs, body_ = d.arrays[0]
            x = _nonzero_part(body_.e) if isinstance(body_, SBool) and len(vs) == 1 else None
            if x is None or not x.is_real():
                continue
            bind = {vs[0].get_id(): None}
            if match(x, a, bind, set()):
                i = bind[vs[0].get_id()]
                if i is not None and ENG.known(z3.And(i >= 0, i < n)) is True:
                    return True
    return False


def _cancel(e):
    """Cancel common factors of a quotient of products (the factor being
    non-zero on this path)."""
    if ENG is None:
        return e
    fs = []
    c = _monofac(e, 1, fs)
    if c is None or not fs:
        return e
    hit = False
    if z3.is_app_of(e, z3.Z3_OP_DIV):
        inner = []
        _monofac(e.arg(1), 1, inner)
        # 1 / (1 / x) is x
        hit = any(s < 0 for _, s in inner) and all(nonzero(a) for a, s in inner if s < 0)
    if not hit and not (any(s > 0 for _, s in fs) and any(s < 0 for _, s in fs)):
        return e
    cnt = {}
    for a, s in fs:
        cnt.setdefault(a.get_id(), [a, 0, 0])
        cnt[a.get_id()][1 if s > 0 else 2] += 1
    # sums up to a rational factor are not matched: atoms only
    for k, (a, p, q) in cnt.items():
        m = min(p, q)
        if m and nonzero(a):
            cnt[k][1] -= m
            cnt[k][2] -= m
            hit = True
    if not hit:
        return e
    num, den = z3.RealVal(str(c)), z3.RealVal(1)
    for a, p, q in cnt.values():
        for _ in range(p):
            num = a if z3.is_rational_value(num) and num.eq(z3.RealVal(1)) else num * a
        for _ in range(q):
            den = a if z3.is_rational_value(den) and den.eq(z3.RealVal(1)) else den * a
    if den.eq(z3.RealVal(1)):
        return num
    return num / den


def _fadd(a, b):
    if z3.is_rational_value(a) and a.numerator_as_long() == 0:
        return b
    if z3.is_rational_value(b) and b.numerator_as_long() == 0:
        return a
    return a + b


def _fsub(a, b):
    if z3.is_rational_value(b) and b.numerator_as_long() == 0:
        return a
    if a.eq(b):
        return z3.RealVal(0)
    return a - b


def add(a, b):
    ka, kb = kind(a), kind(b)
    if 'O' in (ka, kb) or 's' in (ka, kb):
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        return conc(a) + conc(b)
    if 'c' in (ka, kb):
        x, y = cpx(a), cpx(b)
        return SCpx(_fadd(x.re, y.re), _fadd(x.im, y.im))
    if 'f' in (ka, kb):
        if _is_inf(conc(a)) or _is_inf(conc(b)):
            return conc(a) if _is_inf(conc(a)) else conc(b)
        return SFlt(_fadd(real(a), real(b)), nor(nanflag(a), nanflag(b)))
    return simp_int(integer(a) + integer(b))


def neg(a):
    if not is_sym(a):
        return -conc(a)
    if kind(a) == 'c':
        return SCpx(-a.re, -a.im)
    if kind(a) == 'f':
        return SFlt(-a.e, a.nan)
    return simp_int(-integer(a))


def sub(a, b):
    ka, kb = kind(a), kind(b)
    if 'O' in (ka, kb) or 's' in (ka, kb):
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        return conc(a) - conc(b)
    if 'c' in (ka, kb):
        x, y = cpx(a), cpx(b)
        return SCpx(_fsub(x.re, y.re), _fsub(x.im, y.im))
    if 'f' in (ka, kb):
        if _is_inf(conc(a)) or _is_inf(conc(b)):
            return conc(a) if _is_inf(conc(a)) else -conc(b)
        return SFlt(_fsub(real(a), real(b)), nor(nanflag(a), nanflag(b)))
    return simp_int(integer(a) - integer(b))


def mul(a, b):
    ka, kb = kind(a), kind(b)
    if 'O' in (ka, kb) or 's' in (ka, kb):
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        return conc(a) * conc(b)
    if 'c' in (ka, kb):
        if ka != 'c':
            a, b, ka, kb = b, a, kb, ka
        x = cpx(a)
        if kb != 'c':
            r = real(b)
            return SCpx(_fmul(x.re, r), _fmul(x.im, r))
        y = cpx(b)
        return SCpx(_fsub(_fmul(x.re, y.re), _fmul(x.im, y.im)),
                    _fadd(_fmul(x.re, y.im), _fmul(x.im, y.re)))
    if 'f' in (ka, kb):
        if _is_inf(conc(a)) or _is_inf(conc(b)):
            raise Unsupported('infinity times symbol')
        return SFlt(_fmul(real(a), real(b)), nor(nanflag(a), nanflag(b)))
    return simp_int(integer(a) * integer(b))


def div(a, b, scalar=True):
    """True division.  scalar=True: python semantics (ZeroDivisionError);
    scalar=False: numpy semantics (a non-finite result, flagged)."""
    ka, kb = kind(a), kind(b)
    if 'O' in (ka, kb) or 's' in (ka, kb):
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        if scalar or conc(b) != 0:
            return conc(a) / conc(b)
        return float('nan')
    if _is_inf(conc(b)):
        return SFlt(z3.RealVal(0), nanflag(a))
    if _is_inf(conc(a)):
        raise Unsupported('infinity divided by symbol')
    if kb == 'c':
        y = cpx(b)
        x = cpx(a)
        m = _fadd(_fmul(y.re, y.re), _fmul(y.im, y.im))
        return SCpx(_fadd(_fmul(x.re, y.re), _fmul(x.im, y.im)) / m,
                    _fsub(_fmul(x.im, y.re), _fmul(x.re, y.im)) / m)
    d = real(b)
    zero = z3.simplify(d == 0)
    if scalar:
        if not z3.is_false(zero):
            if eng().branch(zero):
                raise mark(ZeroDivisionError('division by zero'))
        zn = False
    else:
        # numpy: division by zero yields an unspecified non-finite value
        zn = False if z3.is_false(zero) else zero
    if ka == 'c':
        x = cpx(a)
        return SCpx(x.re / d, x.im / d)
    q = real(a) / d
    if not z3.is_rational_value(d):
        q = _cancel(q)
    return SFlt(q, nor(nanflag(a), nanflag(b), zn))


def fdiv_int(a, b):
    """floor division of integer terms, b > 0 assumed by the caller"""
    return a / b


def floordiv(a, b):
    if kind(a) in 'ib' and kind(b) in 'ib':
        if not is_sym(a) and not is_sym(b):
            return a // b
        x, y = integer(a), integer(b)
        if eng().branch(y == 0):
            raise mark(ZeroDivisionError('integer division or modulo by zero'))
        if eng().branch(y > 0):
            return simp_int(x / y)
        return simp_int((-x) / (-y))
    q = div(a, b)
    return SFlt(z3.ToReal(z3.ToInt(real(q))), nanflag(q))


def mod(a, b):
    if kind(a) in 'ib' and kind(b) in 'ib':
        if not is_sym(a) and not is_sym(b):
            return a % b
        x, y = integer(a), integer(b)
        if eng().branch(y == 0):
            raise mark(ZeroDivisionError('integer division or modulo by zero'))
        if eng().branch(y > 0):
            return simp_int(x % y)
        return simp_int(-((-x) % (-y)))
    q = div(a, b)
    return SFlt(real(a) - real(b) * z3.ToReal(z3.ToInt(real(q))), nanflag(q))


def power(a, b):
    if not is_sym(a) and not is_sym(b):
        return conc(a) ** conc(b)
    if not is_sym(b) and isinstance(conc(b), int) and 0 <= b <= 4:
        r = 1
        for _ in range(int(b)):
            r = mul(r, a)
        return r
    if not is_sym(b) and conc(b) == 2.0:
        return mul(a, a)
    if not is_sym(b) and conc(b) == -1:
        return div(1, a)
    if not is_sym(b) and conc(b) == 0.5:
        return ufun('sqrt', a)
    f = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
    return SFlt(f(real(a), real(b)), nor(nanflag(a), nanflag(b)))


def _cmpinf(op, a, b):
    a, b = conc(a), conc(b)
    # exactly one (or both) infinite; symbolic values are finite or nan
    if _is_inf(b):
        v = {'<': b > 0, '<=': b > 0, '>': b < 0, '>=': b < 0, '==': False, '!=': True}[op]
        n = nanflag(a)
    else:
        v = {'<': a < 0, '<=': a < 0, '>': a > 0, '>=': a > 0, '==': False, '!=': True}[op]
        n = nanflag(b)
    if n is False:
        return v
    if op == '!=':
        return True
    return mkbool(z3.simplify(z3.And(z3.BoolVal(v), z3.Not(nanB(n)))))


def compare(op, a, b):
    ka, kb = kind(a), kind(b)
    if ka == 's' or kb == 's':
        if ka == kb == 's':
            r = a.e == b.e
        else:
            s, o = (a, b) if ka == 's' else (b, a)
            if not isinstance(o, str):
                return op == '!='
            r = s.e == SStr.const(o)
        if op == '==':
            return mkbool(z3.simplify(r))
        if op == '!=':
            return mkbool(z3.simplify(z3.Not(r)))
        return NotImplemented
    if 'O' in (ka, kb):
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        a, b = conc(a), conc(b)
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
    if _is_inf(conc(a)) or _is_inf(conc(b)):
        return _cmpinf(op, a, b)
    if 'c' in (ka, kb):
        x, y = cpx(a), cpx(b)
        r = z3.And(x.re == y.re, x.im == y.im)
        if op == '==':
            return mkbool(z3.simplify(r))
        if op == '!=':
            return mkbool(z3.simplify(z3.Not(r)))
        raise Unsupported('ordering of complex numbers')
    n = False
    if 'f' in (ka, kb):
        x, y = real(a), real(b)
        n = nor(nanflag(a), nanflag(b))
    elif ka == kb == 'b':
        x, y = boolean(a), boolean(b)
        if op == '==':
            return mkbool(z3.simplify(x == y))
        if op == '!=':
            return mkbool(z3.simplify(x != y))
        x, y = integer(a), integer(b)
    else:
        x, y = integer(a), integer(b)
    r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
         '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
    if n is not False:
        r = z3.Or(r, nanB(n)) if op == '!=' else z3.And(r, z3.Not(nanB(n)))
    return mkbool(z3.simplify(r))


def same(a, b):
    """Specification equality of two scalars: undefined equals undefined."""
    ka, kb = kind(a), kind(b)
    if ka in 'fi' and kb in 'fi' and 'f' in (ka, kb):
        if _is_inf(conc(a)) or _is_inf(conc(b)):
            return mkbool(z3.BoolVal(not is_sym(a) and not is_sym(b) and conc(a) == conc(b)))
        na, nb = nanflag(a), nanflag(b)
        if na is False and nb is False:
            return mkbool(z3.simplify(real(a) == real(b)))
        na, nb = nanB(na), nanB(nb)
        return mkbool(z3.simplify(z3.And(na == nb, z3.Or(na, real(a) == real(b)))))
    r = compare('==', a, b)
    return r


def never_negative(e):
    """a real term that is an absolute value, or made of them"""
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        return all(never_negative(c) for c in e.children())
    if k == z3.Z3_OP_ITE:
        c, x, y = e.children()
        if z3.is_ge(c) and c.arg(0).eq(x) and z3.is_rational_value(c.arg(1)) and c.arg(1).numerator_as_long() == 0:
            return z3.simplify(x + y).eq(z3.RealVal(0))
        return never_negative(x) and never_negative(y)
    return k == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'cabs'


def fabs(e):
    """|e|, with what is never negative taken out"""
    if e.decl().kind() == z3.Z3_OP_DIV:
        n, d = e.children()
        if never_negative(d):
            return fabs(n) / d
        if never_negative(n):
            return n / fabs(d)
    if e.decl().kind() == z3.Z3_OP_MUL:
        out = [c for c in e.children() if never_negative(c)]
        rest = [c for c in e.children() if not never_negative(c)]
        if out and rest:
            return z3.Product(*out) * fabs(z3.Product(*rest))
    return e if never_negative(e) else z3.If(e >= 0, e, -e)


def absolute(a):
    if not is_sym(a):
        return abs(conc(a))
    k = kind(a)
    if k == 'c':
        return cabs(a)
    if k == 'f':
        return SFlt(fabs(a.e), a.nan)
    e = integer(a)
    return simp_int(z3.If(e >= 0, e, -e))


def cabs(a):
    a = cpx(a)
    m = _fadd(_fmul(a.re, a.re), _fmul(a.im, a.im))
    # |re + 0i| = |re|
    if z3.is_rational_value(z3.simplify(a.im)) and z3.simplify(a.im).numerator_as_long() == 0:
        return SFlt(fabs(a.re), False)
    f = z3.Function('cabs', z3.RealSort(), z3.RealSort(), z3.RealSort())
    return SFlt(f(a.re, a.im), False)


def conj(a):
    if kind(a) != 'c':
        return a
    a = cpx(a)
    return SCpx(a.re, -a.im)


def cpx(a):
    a = conc(a)
    if isinstance(a, SCpx):
        return a
    if isinstance(a, complex):
        return SCpx(real(a.real), real(a.imag))
    return SCpx(real(a), z3.RealVal(0))


UF1 = ('sqrt', 'cos', 'sin', 'log', 'log10', 'exp', 'j0', 'y0', 'f32')


def ufun(name, a):
    """Uninterpreted real function with axioms supplied by the prover."""
    f = z3.Function('fn_' + name, z3.RealSort(), z3.RealSort())
    return SFlt(f(real(a)), nanflag(a))


def angle(a):
    a = cpx(a)
    f = z3.Function('angle', z3.RealSort(), z3.RealSort(), z3.RealSort())
    return SFlt(f(a.re, a.im), False)


def cexp(a):
    """exp of a scalar"""
    if kind(a) != 'c':
        return ufun('exp', a)
    a = cpx(a)
    c, s = ufun('cos', SFlt(a.im)), ufun('sin', SFlt(a.im))
    re = z3.simplify(a.re)
    if not z3.is_rational_value(re):
        re = z3.simplify(normal()(re))
    if z3.is_rational_value(re) and re.numerator_as_long() == 0:
        return SCpx(c.e, s.e)
    m = ufun('exp', SFlt(a.re))
    return SCpx(_fmul(m.e, c.e), _fmul(m.e, s.e))


def trunc(x):
    """int(x)"""
    if not is_sym(x):
        return int(x)
    k = kind(x)
    if k in 'ib':
        return simp_int(integer(x))
    if k == 'c':
        raise mark(TypeError("int() of complex"))
    if x.nan is not False:
        if eng().branch(nanB(x.nan)):
            raise mark(ValueError('cannot convert float NaN to integer'))
    return trunc_e(x.e)


def trunc_e(e):
    # int(a/b) of integers is floor division for a >= 0, b > 0
    if z3.is_app_of(e, z3.Z3_OP_DIV):
        a, b = e.children()
        ia, ib = _as_int(a), _as_int(b)
        if ia is not None and ib is not None and ENG is not None:
            if eng().known(z3.And(ia >= 0, ib > 0)) is True:
                return simp_int(ia / ib)
    if ENG is not None and eng().known(e >= 0) is True:
        return simp_int(z3.ToInt(e))
    return simp_int(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def _as_int(e):
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return e.arg(0)
    if z3.is_rational_value(e) and e.denominator_as_long() == 1:
        return z3.IntVal(e.numerator_as_long())
    return None


def rounded(x, nd=None):
    if not is_sym(x) and not is_sym(nd):
        return round(x) if nd is None else round(x, nd)
    if nd is None:
        if kind(x) in 'ib':
            return x
        e = real(x)
        f = z3.ToInt(e)
        d = e - z3.ToReal(f)
        half = z3.RealVal('1/2')
        return simp_int(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
    nd = conc(nd)
    if not is_sym(nd):
        nd = int(nd)
        if kind(x) in 'ib' and nd >= 0:
            return x
        unit = z3.RealVal(10 ** nd) if nd >= 0 else z3.Q(1, 10 ** -nd)
        u = rounded(SFlt(z3.simplify(real(x) * unit), False))
        r = z3.simplify(z3.ToReal(integer(u)) / unit)
        if kind(x) in 'ib':
            w = _as_int(r)
            return simp_int(w) if w is not None else SInt(z3.ToInt(r))
        return SFlt(r, nanflag(x))
    f = z3.Function('round_digits', z3.RealSort(), z3.IntSort(), z3.RealSort())
    return SFlt(f(real(x), integer(nd)), nanflag(x))


def ite(c, a, b):
    """If over scalars."""
    if isinstance(c, SBool):
        c = c.e
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    ka, kb = kind(a), kind(b)
    if ka == kb == 's' or (ka == 's' and isinstance(b, str)) or (kb == 's' and isinstance(a, str)):
        return SStr(z3.If(c, SStr.of(a), SStr.of(b)))
    if 'O' in (ka, kb) or 's' in (ka, kb):
        if a is b or (not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b):
            return a
        raise Unsupported(f'merge of {type(a).__name__} and {type(b).__name__}')
    if 'c' in (ka, kb):
        x, y = cpx(a), cpx(b)
        return SCpx(_if(c, x.re, y.re), _if(c, x.im, y.im))
    if 'f' in (ka, kb):
        na, nb = nanflag(a), nanflag(b)
        if na is nb and na in (True, False):
            n = na
        else:
            n = z3.simplify(z3.If(c, nanB(na), nanB(nb)))
            n = True if z3.is_true(n) else False if z3.is_false(n) else n
        if _is_inf(conc(a)) and _is_inf(conc(b)) and a == b:
            return a
        return SFlt(_if(c, real(a), real(b)), n)
    if ka == kb == 'b':
        return mkbool(z3.simplify(z3.If(c, boolean(a), boolean(b))))
    return simp_int(z3.If(c, integer(a), integer(b)))


def _if(c, a, b):
    if ENG is not None and z3.is_app(a) and z3.is_app(b) and a.num_args() and a.num_args() == b.num_args() and a.decl().eq(b.decl()) \
            and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        same_ = z3.And(*[x == y for x, y in zip(a.children(), b.children())])
        if ENG._quick(z3.And(z3.Not(c), z3.Not(same_))) == z3.unsat:
            return a
        if ENG._quick(z3.And(c, z3.Not(same_))) == z3.unsat:
            return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class SNum(Sym):
    __slots__ = ()

    def __add__(self, o):
        return add(self, o) if _operand(o) else NotImplemented

    def __radd__(self, o):
        return add(o, self) if _operand(o) else NotImplemented

    def __sub__(self, o):
        return sub(self, o) if _operand(o) else NotImplemented

    def __rsub__(self, o):
        return sub(o, self) if _operand(o) else NotImplemented

    def __mul__(self, o):
        return mul(self, o) if _operand(o) else NotImplemented

    def __rmul__(self, o):
        return mul(o, self) if _operand(o) else NotImplemented

    def __truediv__(self, o):
        return div(self, o) if _operand(o) else NotImplemented

    def __rtruediv__(self, o):
        return div(o, self) if _operand(o) else NotImplemented

    def __floordiv__(self, o):
        return floordiv(self, o) if _operand(o) else NotImplemented

    def __rfloordiv__(self, o):
        return floordiv(o, self) if _operand(o) else NotImplemented

    def __mod__(self, o):
        return mod(self, o) if _operand(o) else NotImplemented

    def __rmod__(self, o):
        return mod(o, self) if _operand(o) else NotImplemented

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __lt__(self, o):
        return compare('<', self, o) if _operand(o) else NotImplemented

    def __le__(self, o):
        return compare('<=', self, o) if _operand(o) else NotImplemented

    def __gt__(self, o):
        return compare('>', self, o) if _operand(o) else NotImplemented

    def __ge__(self, o):
        return compare('>=', self, o) if _operand(o) else NotImplemented

    def __eq__(self, o):
        return compare('==', self, o) if _operand(o) else NotImplemented

    def __ne__(self, o):
        return compare('!=', self, o) if _operand(o) else NotImplemented

    __hash__ = Sym.__hash__

    def __bool__(self):
        return eng().branch(boolean(self))

    def __round__(self, nd=None):
        return rounded(self, nd)

    def conjugate(self):
        return conj(self)

    conj = conjugate


class SInt(SNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __index__(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported('symbolic integer used where a concrete one is needed')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())


class SFlt(SNum):
    __slots__ = ('e', 'nan')

    def __init__(self, e, nan=False):
        self.e = e
        self.nan = nan

    def __int__(self):
        raise Unsupported('native int() of a symbolic float')

    def __float__(self):
        s = z3.simplify(self.e)
        if z3.is_rational_value(s) and self.nan is False:
            return float(Fraction(s.numerator_as_long(), s.denominator_as_long()))
        raise Unsupported('native float() of a symbolic float')

    def is_integer(self):
        return mkbool(z3.simplify(z3.IsInt(self.e)))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0


class SCpx(SNum):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self):
        return SFlt(self.re)

    @property
    def imag(self):
        return SFlt(self.im)

    def __bool__(self):
        return eng().branch(z3.Or(self.re != 0, self.im != 0))


class SBool(SNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __invert__(self):
        return mkbool(z3.simplify(z3.Not(self.e)))

    def __and__(self, o):
        return mkbool(z3.simplify(z3.And(self.e, boolean(o)))) if kind(o) == 'b' else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.simplify(z3.Or(self.e, boolean(o)))) if kind(o) == 'b' else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.simplify(z3.Xor(self.e, boolean(o)))) if kind(o) == 'b' else NotImplemented
    __rxor__ = __xor__


class SStr(Sym):
    """A string known only up to equality (coded as an integer)."""
    __slots__ = ('e',)
    _codes = {}

    def __init__(self, e):
        self.e = e

    @classmethod
    def const(cls, s):
        code = cls._codes.setdefault(s, len(cls._codes))
        return z3.IntVal(-1 - code)

    @classmethod
    def of(cls, s):
        return s.e if isinstance(s, SStr) else cls.const(s)

    def __eq__(self, o):
        return compare('==', self, o)

    def __ne__(self, o):
        return compare('!=', self, o)

    __hash__ = Sym.__hash__

    def lower(self):
        raise Unsupported('string operation on a symbolic string')
    upper = strip = split = capitalize = lower


# ---------------------------------------------------------------------------
# substitution in scalars
# ---------------------------------------------------------------------------
def subst(x, pairs):
    """Substitute z3 constants in a scalar."""
    if not pairs:
        return x
    if isinstance(x, SInt):
        return mkint(z3.simplify(z3.substitute(x.e, *pairs)))
    if isinstance(x, SFlt):
        n = x.nan
        if z3.is_expr(n):
            n = z3.simplify(z3.substitute(n, *pairs))
            n = True if z3.is_true(n) else False if z3.is_false(n) else n
        return SFlt(z3.substitute(x.e, *pairs), n)
    if isinstance(x, SCpx):
        return SCpx(z3.substitute(x.re, *pairs), z3.substitute(x.im, *pairs))
    if isinstance(x, SBool):
        return mkbool(z3.simplify(z3.substitute(x.e, *pairs)))
    if isinstance(x, SStr):
        return SStr(z3.substitute(x.e, *pairs))
    return x


def exprs_of(x):
    if isinstance(x, SFlt):
        return [x.e] + ([x.nan] if z3.is_expr(x.nan) else [])
    if isinstance(x, (SInt, SBool, SStr)):
        return [x.e]
    if isinstance(x, SCpx):
        return [x.re, x.im]
    return []


# ---------------------------------------------------------------------------
# definitional symbols
# ---------------------------------------------------------------------------
DEFINED = re.compile(r'^all!\d+\.Q$')


class Def:
    """A family of values defined over an index domain [0, n).

    kind     'forall' 'sum' 'ext' (extremum) 'filter' 'sort' 'op'
    params   z3 constants the definition is generalised over
    arrays   list of (n, vars, scalar body): the array arguments
    scalars  list of z3 expressions: the scalar arguments
    decls    name -> z3 function symbol; every symbol takes the params first
    """

    def __init__(self, kind, name, params, arrays, scalars, decls, extra=None):
        self.kind, self.name, self.params = kind, name, params
        self.arrays, self.scalars, self.decls = arrays, scalars, decls
        self.extra = extra or {}

    def at(self, args):
        """Specialise: returns (arrays, scalars) with params replaced."""
        pairs = list(zip(self.params, args))
        if all(a.eq(b) for a, b in pairs):
            return self.arrays, self.scalars
        arrays = [(z3.substitute(n, *pairs), vs, subst(b, pairs)) for n, vs, b in self.arrays]
        scalars = [z3.substitute(s, *pairs) for s in self.scalars]
        return arrays, scalars


def _sort_of(body):
    k = kind(body)
    return {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[k]


def canon(e):
    """z3's simplifier leaves 1 <= x, x >= 1 and not x <= 0 alone; one form for all of them (integers)."""
    memo = eng().__dict__.setdefault('canon_memo', {})

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        r = x
        if z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            neg = z3.is_not(x)
            y = ch[0] if neg else None
            if neg and z3.is_not(y):
                r = y.arg(0)
            elif (z3.is_le(x) or z3.is_ge(x)) and ch[0].is_int() and (z3.is_int_value(ch[0]) or z3.is_int_value(ch[1])):
                p, q, le = ch[0], ch[1], z3.is_le(x)
                if z3.is_int_value(p):
                    p, q, le = q, p, not le
                r = p <= q if le else z3.Not(p <= z3.IntVal(q.as_long() - 1) if z3.is_int_value(q) else p <= q - 1)
            elif z3.is_ge(x) and ch[0].is_int():
                r = ch[1] <= ch[0]
            elif any(not c.eq(d) for c, d in zip(ch, x.children())):
                r = x.decl()(*ch)
        memo[i] = (x, r)
        return r
    return go(e)


def canon_body(b):
    if isinstance(b, SBool):
        return SBool(normal()(canon(z3.simplify(b.e))))
    if isinstance(b, SInt):
        return SInt(normal()(canon(z3.simplify(b.e))))
    if isinstance(b, SFlt):
        return SFlt(normal()(canon(z3.simplify(b.e))), normal()(canon(z3.simplify(b.nan))) if z3.is_expr(b.nan) else b.nan)
    return b


def match(pat, e, bind, seen):
    """One-way matching: extend bind (parameter id -> term) so that pat becomes e."""
    i = pat.get_id()
    if i in bind:
        if bind[i] is None:
            if pat.sort() != e.sort():
                return False
            bind[i] = e
            return True
        return bind[i].eq(e)
    if pat.num_args() == 0 or e.num_args() != pat.num_args():
        return pat.eq(e)
    if (i, e.get_id()) in seen:
        return True
    if not pat.decl().eq(e.decl()):
        return False
    if pat.decl().kind() in SYMMETRIC:
        ok = match_any(pat.children(), e.children(), bind, seen)
    else:
        ok = all(match(x, y, bind, seen) for x, y in zip(pat.children(), e.children()))
    if ok:
        seen.add((i, e.get_id()))
    return ok


def match_any(pats, es, bind, seen):
    """match of two argument lists whose order does not matter"""
    es = list(es)
    left = []
    for p in pats:
        k = next((k for k, e in enumerate(es) if p.eq(e)), None)
        if k is None:
            left.append(p)
        else:
            es.pop(k)

    def go(j, rest):
        if j == len(left):
            return True
        for k, e in enumerate(rest):
            b, s = dict(bind), set(seen)
            if match(left[j], e, bind, seen) and go(j + 1, rest[:k] + rest[k + 1:]):
                return True
            bind.clear(), bind.update(b)
            seen.clear(), seen.update(s)
        return False
    return len(left) <= 6 and go(0, es)


def instance_of(E, kind_, name, arrays, scalars, results):
    """An existing definition with parameters that this one is an instance of."""
    for d in E.defcache.values():
        if d.kind != kind_ or d.name != name or not d.params or len(d.arrays) != len(arrays) \
                or len(d.scalars) != len(scalars) or set(d.decls) != set(results):
            continue
        bind = {p.get_id(): None for p in d.params}
        seen = set()
        ok = True
        for (n, vs, b), (n2, vs2, b2) in zip(d.arrays, arrays):
            if len(vs) != len(vs2) or kind(b) != kind(b2) or is_sym(b) != is_sym(b2) or type(b) is not type(b2) or (getattr(b, 'nan', None) is True) != (getattr(b2, 'nan', None) is True):
                ok = False
                break
            es, es2 = exprs_of(b), exprs_of(b2)
            pairs = list(zip(vs2, vs))
            if not is_sym(b):
                ok = repr(b) == repr(b2) and match(n, n2, bind, seen)
            elif len(es) != len(es2):
                ok = False
            else:
                ok = match(n, n2, bind, seen)
                for x, y in zip(es, es2):
                    ok = ok and match(x, z3.substitute(y, *pairs) if pairs else y, bind, seen)
                # a parameter cannot stand for a bound variable
                ok = ok and not any(t is not None and _contains(t, v) for t in bind.values() for v in vs)
            if not ok:
                break
        ok = ok and all(match(x, y, bind, seen) for x, y in zip(d.scalars, scalars))
        if ok and all(t is not None for t in bind.values()):
            return d, [bind[p.get_id()] for p in d.params]
    return None


def define(kind_, name, arrays, scalars, results, extra=None):
    """Create (or reuse) a definition.

    arrays: [(n, (vars..), body scalar)], scalars: [expr],
    results: {result name: (extra arg sorts, sort)}.
    Returns a dict of callables: result name -> function(*index exprs) -> term.
    """
    E = eng()
    exprs = []
    arrays = [(n, vs, canon_body(b)) for n, vs, b in arrays]
    for n, vs, b in arrays:
        exprs.append(n)
        es = exprs_of(b)
        hide = [z3.Int(E.fresh('hide')) for _ in vs]
        exprs.extend(z3.substitute(e, *list(zip(vs, hide))) for e in es)
    exprs += list(scalars)
    params = E.free_index(*exprs)
    psorts = [p.sort() for p in params]
    # canonical names: definitions that differ in those only are the same
    pcanon = [(p, z3.Const(f'pv!{i}!{p.sort()}', p.sort())) for i, p in enumerate(params)]
    key = [kind_, name, tuple(str(s) for s in psorts)]
    E._keep_defs = getattr(E, '_keep_defs', [])

    def canonical(e, pairs):
        e = z3.substitute(e, *pairs) if pairs else e
        E._keep_defs.append(e)
        return e.get_id()
    for n, vs, b in arrays:
        pairs = [(v, z3.Int(f'bv!{len(vs)}!{i}')) for i, v in enumerate(vs)] + pcanon
        key.append((canonical(n, pcanon), kind(b), getattr(b, 'nan', None) is True, tuple(canonical(e, pairs) for e in exprs_of(b)) if is_sym(b) else repr(b)))
    for s in scalars:
        key.append(canonical(s, pcanon))
    key = tuple(key)
    d = E.defcache.get(key)
    if d is None:
        got = instance_of(E, kind_, name, arrays, scalars, results)
        if got is not None:
            d, params = got
    if d is None:
        uid = E.fresh(name)
        decls = {}
        for rn, (xs, srt) in results.items():
            decls[rn] = z3.Function(f'{uid}.{rn}', *(psorts + list(xs) + [srt])) if (psorts or xs) \
                else z3.Const(f'{uid}.{rn}', srt)
        d = Def(kind_, name, params, arrays, scalars, decls, extra)
        E.defcache[key] = d
        for rn, dc in decls.items():
            nm = dc.name() if isinstance(dc, z3.FuncDeclRef) else dc.decl().name()
            E.defs[nm] = (d, rn)

    def mk(rn):
        dc = d.decls[rn]
        if isinstance(dc, z3.FuncDeclRef):
            return lambda *ix: dc(*params, *ix)
        return lambda *ix: dc
    return {rn: mk(rn) for rn in results}


def forall(n, fn):
    """Reified: for all i in [0, n): fn(i).  Returns bool or SBool."""
    E = eng()
    nn = integer(n)
    if z3.is_int_value(z3.simplify(nn)):
        m = z3.simplify(nn).as_long()
        if m <= 0:
            return True
        if m <= 8:
            r = z3.BoolVal(True)
            for j in range(m):
                r = z3.And(r, boolean(fn(j)))
            return mkbool(z3.simplify(r))
    v = E.index_var('q')
    b = body(fn, (v,), (nn,))
    if b is True:
        return True
    b = boolean(b)
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    I = z3.IntSort()
    r = define('forall', 'all', [(nn, (v,), SBool(b))], [], {'Q': ([], z3.BoolSort()), 'w': ([], I)})
    return SBool(r['Q']())


def forall_witness(q):
    """first index violating a reified forall term (term-level)"""
    E = eng()
    d, rn = E.defs[q.e.decl().name()]
    dc = d.decls['w']
    args = q.e.children()
    return SInt(dc(*args) if isinstance(dc, z3.FuncDeclRef) else dc)


def exists(n, fn):
    def neg_(i):
        return lnot(fn(i))
    r = forall(n, neg_)
    return lnot(r)


def lnot(a):
    a = conc(a)
    if isinstance(a, bool):
        return not a
    return mkbool(z3.simplify(z3.Not(boolean(a))))


def land(*xs):
    return mkbool(z3.simplify(z3.And(*[boolean(x) for x in xs]))) if xs else True


def lor(*xs):
    return mkbool(z3.simplify(z3.Or(*[boolean(x) for x in xs]))) if xs else False


def implies(a, b):
    return lor(lnot(a), b)


def total(n, fn):
    """Reified sum of fn(i), i in [0, n)."""
    E = eng()
    nn = z3.simplify(integer(n))
    if z3.is_int_value(nn) and nn.as_long() <= 8:
        r = 0
        for j in range(nn.as_long()):
            r = add(r, fn(j))
        return r
    v = E.index_var('s')
    b = body(fn, (v,), (nn,))
    k = kind(b)
    if k == 'c':
        re = _sum1(nn, v, SFlt(cpx(b).re))
        im = _sum1(nn, v, SFlt(cpx(b).im))
        return SCpx(re.e, im.e)
    if k == 'b':
        b = SInt(integer(b)) if is_sym(b) else int(b)
        k = 'i'
    if k == 'i':
        if not is_sym(b):
            return mul(b, mkint(z3.If(nn > 0, nn, z3.IntVal(0))))
        # how often a condition holds, written for the condition without a negation
        e = z3.simplify(b.e)
        if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)):
            q, x, y = e.arg(0), e.arg(1).as_long(), e.arg(2).as_long()
            if z3.is_not(q):
                q, x, y = q.arg(0), y, x
            if (x, y) != (1, 0):
                S = define('sum', 'sumi', [(nn, (v,), SInt(z3.If(q, z3.IntVal(1), z3.IntVal(0))))], [], {'S': ([], z3.IntSort())})['S']()
                m = nn if E.known(nn >= 0) else z3.If(nn > 0, nn, z3.IntVal(0))
                return SInt(z3.simplify(y * m + (x - y) * S))
        r = define('sum', 'sumi', [(nn, (v,), b)], [], {'S': ([], z3.IntSort())})
        return SInt(r['S']())
    return _sum1(nn, v, b)


def _contains(e, v):
    seen = set()
    todo = [e]
    vid = v.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == vid:
            return True
        todo.extend(x.children())
    return False


def _monomials(e, v, depth=0):
    """Write e as a list of (coefficient free of v, rest) terms, or None."""
    if not _contains(e, v):
        return [(e, None)]
    if z3.is_add(e):
        out = []
        for ch in e.children():
            out += _monomials(ch, v, depth + 1)
        return out
    if z3.is_sub(e):
        chs = e.children()
        out = _monomials(chs[0], v, depth + 1)
        for ch in chs[1:]:
            out += [(-c, r) for c, r in _monomials(ch, v, depth + 1)]
        return out
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return [(-c, r) for c, r in _monomials(e.arg(0), v, depth + 1)]
    if z3.is_mul(e) and depth < 12:
        acc = [(z3.RealVal(1), None)]
        for ch in e.children():
            ms = _monomials(ch, v, depth + 1)
            new = []
            for c1, r1 in acc:
                for c2, r2 in ms:
                    r = r1 if r2 is None else r2 if r1 is None else _sorted_mul(r1, r2)
                    new.append((_fmul(c1, c2), r))
            acc = new
            if len(acc) > 32:
                return [(z3.RealVal(1), e)]
        return acc
    if z3.is_app_of(e, z3.Z3_OP_DIV):
        a, b = e.children()
        if not _contains(b, v):
            return [(c / b, r) for c, r in _monomials(a, v, depth + 1)]
        ms = _monomials(a, v, depth + 1)
        if len(ms) <= 8:
            return [(c, (z3.RealVal(1) if r is None else r) / b) for c, r in ms]
    return [(z3.RealVal(1), e)]


def _factors(e):
    if z3.is_mul(e):
        out = []
        for ch in e.children():
            out += _factors(ch)
        return out
    return [e]


def _sorted_mul(a, b):
    fs = _factors(a) + _factors(b)
    fs.sort(key=lambda t: t.sexpr() if t.num_args() < 4 else str(t.get_id()))
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


SYMMETRIC = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL}


class Normal:
    """A real term as a sum of monomials, the same for equal arrangements.  x / y counts as x times the inverse of y."""
    BOUND = re.compile(r'^[a-z]{1,2}!\d+$')

    def __init__(self):
        self.keys, self.memo, self.atoms, self.keep, self.order = {}, {}, {}, [], {}

    def key(self, t):
        """structure of a term, blind to the names of bound variables"""
        i = t.get_id()
        if i not in self.keys:
            self.keep.append(t)
            if z3.is_app(t):
                nm = t.decl().name() if t.num_args() or not z3.is_rational_value(t) and not z3.is_int_value(t) else str(t)
                if t.num_args() == 0 and self.BOUND.match(nm):
                    nm = '?'
                self.keys[i] = hashlib.md5('|'.join([nm] + [self.key(c) for c in t.children()]).encode()).hexdigest()
            else:
                self.keys[i] = str(i)
        return self.keys[i]

    def atom(self, t):
        i = t.get_id()
        if i not in self.atoms:
            self.keep.append(t)
            self.atoms[i] = t
            self.order[i] = (self.key(t), len(self.order))
        return i

    def times(self, p, q):
        out = {}
        for m, c in p.items():
            for n, d in q.items():
                f = {}
                for (a, sg), x in m + n:
                    f[a, sg] = f.get((a, sg), 0) + x
                # no cancellation: the factor may be zero
                k = tuple(sorted(f.items(), key=lambda z: (self.order[z[0][0]], z[0][1])))
                out[k] = out.get(k, 0) + c * d
        if len(out) > 24:
            raise OverflowError
        return {k: c for k, c in out.items() if c}

    def poly(self, e, depth=0):
        if z3.is_rational_value(e):
            c = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): c} if c else {}
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            out = {}
            for j, ch in enumerate(e.children()):
                for m, c in self.poly(ch).items():
                    out[m] = out.get(m, 0) + (-c if j and k == z3.Z3_OP_SUB else c)
            if len(out) > 24:
                raise OverflowError
            return {m: c for m, c in out.items() if c}
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.poly(e.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for ch in e.children():
                out = self.times(out, self.poly(ch))
            return out
        if k == z3.Z3_OP_DIV:
            n, d = self.poly(e.arg(0)), self.poly(e.arg(1))
            if len(d) == 1:
                (m, c), = d.items()
                if all(sg > 0 for (a, sg), x in m):
                    return self.times(n, {tuple(((a, -1), x) for (a, sg), x in m): 1 / c})
            a = self.atom(self.back(d))
            return self.times(n, {(((a, -1), 1),): Fraction(1)})
        if k == z3.Z3_OP_TO_REAL:
            x = e.arg(0)
            if z3.is_add(x):
                return self.poly(z3.Sum(*[z3.ToReal(c) for c in x.children()]))
            if z3.is_mul(x):
                return self.poly(z3.Product(*[z3.ToReal(c) for c in x.children()]))
            if z3.is_int_value(x):
                return {(): Fraction(x.as_long())} if x.as_long() else {}
            return {(((self.atom(e), 1), 1),): Fraction(1)}
        return {(((self.atom(self.inside(e)), 1), 1),): Fraction(1)}

    def inside(self, e):
        ch = [self(c) for c in e.children()]
        if e.decl().kind() in SYMMETRIC:
            ch = sorted(ch, key=self.key)
        if any(not a.eq(b) for a, b in zip(ch, e.children())):
            k = e.decl().kind()
            if k == z3.Z3_OP_AND:
                return z3.And(*ch)
            if k == z3.Z3_OP_OR:
                return z3.Or(*ch)
            if k == z3.Z3_OP_ADD:
                return z3.Sum(*ch)
            if k == z3.Z3_OP_MUL:
                return z3.Product(*ch)
            return e.decl()(*ch)
        return e

    def back(self, p):
        """the term of a polynomial"""
        def one(m, c):
            num, den = [], []
            for (a, sg), x in m:
                (num if sg > 0 else den).extend([self.atoms[a]] * x)
            t = z3.Product(*num) if len(num) > 1 else num[0] if num else None
            if c != 1 or t is None:
                k = z3.RealVal(str(c))
                t = k if t is None else k * t
            return t / (z3.Product(*den) if len(den) > 1 else den[0]) if den else t
        if not p:
            return z3.RealVal(0)
        ts = [one(m, p[m]) for m in sorted(p, key=lambda m: [(self.order[a], sg, x) for (a, sg), x in m])]
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]

    def __call__(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(e)
        if z3.is_quantifier(e) or z3.is_var(e) or not e.num_args():
            r = e
        elif e.is_real() if z3.is_arith(e) else False:
            try:
                r = self.back(self.poly(e))
            except OverflowError:
                r = self.inside(e)
        else:
            r = self.inside(e)
        self.memo[i] = r
        self.keep.append(r)
        return r


def normal():
    E = eng()
    if 'normal' not in E.__dict__:
        E.normal = Normal()
    return E.normal


def _normal_term(c, r, v):
    """c * r with the factors of r that v does not occur in moved to c"""
    N = normal()
    try:
        p = N.poly(z3.simplify(r))
    except OverflowError:
        return [(c, r)]
    if len(p) != 1:
        return [(c, r)]
    (m, k), = p.items()
    out = {f: x for f, x in m if not _contains(N.atoms[f[0]], v)}
    rest = tuple((f, x) for f, x in m if f not in out)
    c = _fmul(c, N.back({tuple(out.items()): k}))
    return [(c, N.back({rest: Fraction(1)}) if rest else None)]


def _sum1(nn, v, b):
    """Sum of a real body, normalised by linearity."""
    if not is_sym(b):
        b = SFlt(real(b), nanflag(b))
    nan = b.nan
    if z3.is_expr(nan):
        vv = eng().index_var('s')
        anyn = lnot(forall(mkint(nn), lambda i: mkbool(z3.simplify(z3.Not(z3.substitute(nan, (v, integer(i))))))))
        nan = boolean(anyn)
        nan = False if z3.is_false(nan) else nan
    ms = [x for c, r in _monomials(b.e, v) for x in ([(c, r)] if r is None else _normal_term(c, r, v))]
    tot = z3.RealVal(0)
    npos = z3.ToReal(z3.If(nn > 0, nn, z3.IntVal(0)))
    groups = {}
    order = []
    for c, r in ms:
        key = None if r is None else r.get_id()
        if key not in groups:
            groups[key] = [r, c]
            order.append(key)
        else:
            groups[key][1] = groups[key][1] + c
    for key in order:
        r, c = groups[key]
        c = z3.simplify(c)
        if r is None:
            tot = _fadd(tot, _fmul(c, npos))
        else:
            d = define('sum', 'sum', [(nn, (v,), SFlt(r))], [], {'S': ([], z3.RealSort())})
            tot = _fadd(tot, _fmul(c, d['S']()))
    return SFlt(tot, nan)


def extremum(n, fn, which):
    """(value, first index) of the max/min of fn over [0, n), n >= 1."""
    E = eng()
    nn = z3.simplify(integer(n))
    if z3.is_int_value(nn) and nn.as_long() <= 6:
        best, at = fn(0), 0
        for j in range(1, nn.as_long()):
            x = fn(j)
            c = compare('>' if which == 'max' else '<', x, best)
            best, at = ite(c, x, best), ite(c, j, at)
        return best, at
    v = E.index_var('m')
    b = body(fn, (v,), (nn,))
    if kind(b) == 'c':
        raise Unsupported('extremum of complex values')
    if kind(b) == 'b':
        b = mkint(integer(b))
    if not is_sym(b):
        return b, 0
    if isinstance(b, SFlt) and b.nan is not False:
        # with undefined values numpy's extremum is undefined
        raise_nan = b.nan
        ok = forall(mkint(nn), lambda i: mkbool(z3.simplify(z3.Not(z3.substitute(raise_nan, (v, integer(i)))))))
        if ok is not True:
            from . import prover
            if ok is False or E.solver.check() != z3.unsat and not prover.prove(E, list(E.pc), boolean(ok), timeout=1500, want_model=False, quick=True, lean=True).status == 'proved' \
                    and not E.branch(boolean(ok)):
                raise Unsupported('extremum over undefined values')
        b = SFlt(b.e, False)
    r = define('ext', which, [(nn, (v,), b)], [], {'a': ([], z3.IntSort())}, {'which': which})
    a = r['a']()
    E.fact(z3.Implies(nn >= 1, z3.And(a >= 0, a < nn)))
    return subst(b, [(v, a)]), SInt(a)


def filtered(n, cond):
    """Indices of [0, n) satisfying cond: (length, sel function, rank function)."""
    E = eng()
    nn = z3.simplify(integer(n))
    v = E.index_var('f')
    b = body(cond, (v,), (nn,))
    b = SBool(z3.simplify(boolean(b)))
    I = z3.IntSort()
    r = define('filter', 'filter', [(nn, (v,), b)], [], {'len': ([], I), 'sel': ([I], I), 'rank': ([I], I)})
    E.fact(z3.Implies(nn >= 0, z3.And(r['len']() >= 0, r['len']() <= nn)))
    def sel(i):
        i = integer(i)
        t = r['sel'](i)
        ranged(t, z3.And(i >= 0, i < r['len']()), nn)
        return SInt(t)
    return SInt(r['len']()), sel, (lambda j: SInt(r['rank'](integer(j))))


def argsorted(n, key):
    E = eng()
    nn = z3.simplify(integer(n))
    v = E.index_var('k')
    b = body(key, (v,), (nn,))
    I = z3.IntSort()
    if not z3.is_int_value(nn) and kind(b) in 'if':
        # already strictly ascending: sorting is the identity
        from . import prover
        asc = forall(mkint(z3.simplify(nn - 1)), lambda i: compare('<', subst(b, [(v, integer(i))]), subst(b, [(v, integer(i) + 1)])))
        if asc is True or (asc is not False and prover.prove(E, list(E.pc), boolean(asc), timeout=800, rounds=3, want_model=False,
                                                             quick=True).status == 'proved'):
            return (lambda i: mkint(integer(i))), (lambda j: mkint(integer(j)))
    r = define('sort', 'argsort', [(nn, (v,), b)], [], {'perm': ([I], I), 'inv': ([I], I)})
    def get(rn):
        def f(i):
            i = integer(i)
            t = r[rn](i)
            ranged(t, z3.And(i >= 0, i < nn), nn)
            return SInt(t)
        return f
    return get('perm'), get('inv')


def ranged(t, cond, n):
    """eager fact: cond implies 0 <= t < n"""
    E = eng()
    if t.get_id() not in E.ranged:
        E.ranged[t.get_id()] = t
        E.fact(z3.simplify(z3.Implies(cond, z3.And(t >= 0, t < n))))


def opaque(name, arrays, scalars, nres=1, sort='f', extra=None, given=()):
    """Uninterpreted array operation: congruent in its array and scalar
    arguments.  arrays: [(n (list of dims), fn(*idx)->scalar)].  Result is a
    function of nres indices."""
    E = eng()
    E.assumptions[name] = E.assumptions.get(name, 0) + 1
    arrs = []
    for dims, fn in arrays:
        vs = tuple(E.index_var('o') for _ in dims)
        dims = [mkint(in_short(integer(d), given)) if is_sym(d) else d for d in dims]
        b = body(fn, vs, [integer(d) for d in dims], given)
        parts = [b]
        if kind(b) == 'c':
            parts = [SFlt(cpx(b).re), SFlt(cpx(b).im)]
        for p in parts:
            if not is_sym(p):
                p = SFlt(real(p), nanflag(p)) if kind(p) == 'f' else p
            nflat = integer(dims[0])
            # higher-dimensional arguments: dims beyond the first are scalars
            arrs.append((nflat, vs, p))
        for d in dims:
            scalars = scalars + [d]
    sc = []
    for s in scalars:
        k = kind(s)
        sc.append(in_short(integer(s) if k in 'ib' else real(s), given))
    I = z3.IntSort()
    srt = {'f': z3.RealSort(), 'i': I, 'b': z3.BoolSort()}
    ress = {}
    if sort == 'c':
        ress = {'re': ([I] * nres, z3.RealSort()), 'im': ([I] * nres, z3.RealSort())}
    else:
        ress = {'v': ([I] * nres, srt[sort])}
    r = define('op', name, arrs, sc, ress, extra)

    def get(*ix):
        ix = [integer(i) for i in ix]
        if sort == 'c':
            return SCpx(r['re'](*ix), r['im'](*ix))
        t = r['v'](*ix)
        return {'f': SFlt, 'i': SInt, 'b': SBool}[sort](t)
    return get
