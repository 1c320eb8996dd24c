"""Contracts: one text, three readings.

U  symbolic inputs of arbitrary size, the instrumented real code, obligations
   discharged by the prover (no bound);
B  as U but with the sizes fixed to small numbers (bounded, never counted as
   proved);
C  concrete inputs on the untouched real code: search for a failing input and
   replay of one.
"""
import hashlib
import json
import math
import random
import sys
import traceback
from fractions import Fraction

CONTRACTS = []


class Contract:
    def __init__(self, prop, name, fn, functions, modes, trials, sizes, rounds, timeout, extra):
        self.prop, self.name, self.fn, self.functions = prop, name, fn, functions
        self.modes, self.trials, self.sizes, self.rounds, self.timeout = modes, trials, sizes, rounds, timeout
        self.extra = extra
        self.id = f'{prop}.{name}'


def contract(prop, functions, modes='UBC', trials=150, sizes=(1, 2, 3), rounds=4, timeout=8000, **extra):
    def deco(fn):
        CONTRACTS.append(Contract(prop, fn.__name__, fn, functions, modes, trials, sizes, rounds, timeout, extra))
        return fn
    return deco


class Discard(Exception):
    """The concrete input does not satisfy the precondition."""


class CheckFailed(Exception):
    pass


class Outcome:
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return f'Outcome(ok, {self.value!r})' if self.ok else f'Outcome({type(self.exc).__name__}: {self.exc})'


# ---------------------------------------------------------------------------
# concrete context
# ---------------------------------------------------------------------------
class Concrete:
    """Concrete reading.  Draws inputs, or takes them from `given`."""
    symbolic = False
    mode = 'C'

    def __init__(self, rng, given=None, pool=(), tier=0):
        self.rng, self.given, self.inputs = rng, given, {}
        self.pool = pool
        self.tier = tier
        self.checks = 0
        self.failed = []

    # inputs ------------------------------------------------------------------
    def _draw(self, name, gen):
        if self.given is not None and name in self.given:
            v = self.given[name]
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def int(self, name, lo=0, hi=None, small=None, size=False, gen=None):
        if gen is not None:
            return self._draw(name, lambda: gen(self.rng))

        def gen():
            top = hi if hi is not None else lo + 12
            if small is not None and self.rng.random() < 0.7:
                top = min(top, small)
            r = self.rng.random()
            if r < 0.15:
                return lo
            if r < 0.25 and self.pool:
                c = [int(p) + d for p in self.pool for d in (-1, 0, 1) if p == int(p)]
                c = [x for x in c if lo <= x <= (hi if hi is not None else lo + 600)]
                if c:
                    return self.rng.choice(c)
            return self.rng.randint(lo, top)
        return self._draw(name, gen)

    def size(self, name, lo=1, hi=None):
        return self.int(name, lo, hi if hi is not None else lo + 9, size=True)

    def _real(self, lo, hi, nan, grid, ties):
        rng = self.rng
        if nan and rng.random() < (nan if isinstance(nan, float) else 0.25):
            return float('nan')
        a = lo if lo is not None else -100.0
        b = hi if hi is not None else 100.0
        if grid:
            k0, k1 = math.ceil(a / grid - 1e-9), math.floor(b / grid + 1e-9)
            return rng.randint(k0, k1) * grid
        r = rng.random()
        if r < 0.12 and self.pool:
            c = [float(p) for p in self.pool if a <= p <= b]
            if c:
                return rng.choice(c)
        if r < (0.5 if ties else 0.3):
            m = min(b, a + 8) if lo is not None else min(4.0, b)
            x = rng.randint(math.ceil(max(a, m - 8)), max(math.ceil(max(a, m - 8)), math.floor(m)))
            if a <= x <= b:
                return float(x)
        if r < 0.65:
            x = round(rng.uniform(a, b) * 4) / 4
            if a <= x <= b:
                return x
        return rng.uniform(a, b)

    def real(self, name, lo=None, hi=None, nan=False, grid=None, open_lo=False, gen=None):
        if gen is not None:
            return self._draw(name, lambda: gen(self.rng))

        def gen():
            for _ in range(50):
                x = self._real(lo, hi, nan, grid, False)
                if not (open_lo and x == lo):
                    return x
            return (lo + hi) / 2
        return self._draw(name, gen)

    def bool(self, name):
        return self._draw(name, lambda: self.rng.random() < 0.5)

    def choice(self, name, options):
        i = self._draw(name, lambda: self.rng.randrange(len(options)))
        return options[i]

    def string(self, name):
        return self._draw(name, lambda: self.rng.choice(['a', 'b', 'c', 'peak', '0', 'x y']))

    def vec(self, name, n, lo=None, hi=None, nan=False, grid=None, ties=True, kind='f', scale=True):
        import numpy as np

        def gen():
            if kind == 'i':
                return [self.rng.randint(lo if lo is not None else -3, hi if hi is not None else 3) for _ in range(n)]
            if kind == 'b':
                p = self.rng.choice([0.1, 0.5, 0.9])
                return [self.rng.random() < p for _ in range(n)]
            return [self._real(lo, hi, nan, grid, ties) for _ in range(n)]
        v = self._draw(name, gen)
        return np.array(v, dtype={'f': float, 'i': int, 'b': bool}[kind])

    def mat(self, name, shape, lo=None, hi=None, nan=False, grid=None, ties=True, kind='f'):
        import numpy as np

        def gen():
            def rec(s):
                if not s:
                    if kind == 'b':
                        return self.rng.random() < 0.6
                    if kind == 'i':
                        return self.rng.randint(lo if lo is not None else -3, hi if hi is not None else 3)
                    return self._real(lo, hi, nan, grid, ties)
                return [rec(s[1:]) for _ in range(s[0])]
            return rec(list(shape))
        return np.array(self._draw(name, gen), dtype={'f': float, 'i': int, 'b': bool}[kind]).reshape(shape)

    def increasing(self, name, n, lo=-50.0, step_lo=0.25, step_hi=5.0, grid=None):
        """strictly increasing positions"""
        import numpy as np

        def gen():
            g = grid or 0.25
            x = [self.rng.randint(int(lo / g), int((lo + 60) / g)) * g]
            same = self.rng.random() < 0.4
            st = max(g, round(self.rng.uniform(step_lo, step_hi) / g) * g)
            for _ in range(n - 1):
                if not same:
                    st = max(g, round(self.rng.uniform(step_lo, step_hi) / g) * g)
                x.append(x[-1] + st)
            return x
        return np.array(self._draw(name, gen), dtype=float)

    def order(self, name, n):
        """a permutation of range(n) (concrete); identity of unknown order (symbolic)"""
        def gen():
            p = list(range(n))
            r = self.rng.random()
            if r < 0.2:
                return p
            if r < 0.4:
                return p[::-1]
            self.rng.shuffle(p)
            return p
        return self._draw(name, gen)

    def family(self, n, fn):
        return [fn(i) for i in range(n)]

    def each(self, n, fn):
        return [fn(i) for i in range(n)]

    # logic ------------------------------------------------------------------
    def assume(self, cond):
        if not bool(cond):
            raise Discard()

    def call(self, fn, *a, **k):
        import warnings
        import io
        import contextlib
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    return Outcome(True, fn(*a, **k))
            except Exception as e:
                return Outcome(False, None, e)

    def check(self, name, cond):
        self.checks += 1
        if not bool(cond):
            self.failed.append(name)
            raise CheckFailed(name)

    def lemma(self, name, cond):
        """checked here, and known from here on"""
        self.check(name, cond)
        self.assume(cond)

    def forall(self, n, fn):
        return all(bool(fn(i)) for i in range(int(n)))

    def exists(self, n, fn):
        return any(bool(fn(i)) for i in range(int(n)))

    def sum(self, n, fn):
        r = 0.0
        for i in range(int(n)):
            r = r + fn(i)
        return r

    def select(self, n, fn):
        """the indices below n with fn, ascending: (how many, the k-th one)"""
        ix = [i for i in range(int(n)) if fn(i)]
        return len(ix), (lambda k: ix[int(k)])

    def count(self, n, fn):
        return sum(1 for i in range(int(n)) if fn(i))

    def len(self, x):
        return len(x)

    def at(self, a, *i):
        return a[i if len(i) > 1 else i[0]]

    def implies(self, a, b):
        """b may be a thunk, evaluated only if a holds"""
        if not bool(a):
            return True
        return bool(b() if callable(b) else b)

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *xs):
        return all(bool(x() if callable(x) else x) for x in xs)

    def or_(self, *xs):
        return any(bool(x() if callable(x) else x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def eq(self, a, b, tol=1e-9, scale=None):
        """equality up to rounding (exact in the symbolic reading)"""
        a, b = complex(a), complex(b)
        if a != a or b != b:
            return False
        if a == b:
            return True
        m = max(abs(a), abs(b)) if scale is None else max(abs(a), abs(b), abs(scale))
        return abs(a - b) <= tol * m + 1e-13

    def is_(self, a, b):
        """exact equality; undefined equals undefined"""
        if isinstance(a, float) or isinstance(b, float) or hasattr(a, 'dtype'):
            if a != a and b != b:
                return True
        return bool(a == b)

    def le(self, a, b, tol=1e-9):
        return a <= b + tol * max(1.0, abs(a), abs(b))

    def isnan(self, x):
        return bool(x != x)

    def abs(self, x):
        return abs(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def quot(self, a, b):
        """a / b as numpy divides: no exception"""
        return a / b

    def cexp(self, re, im):
        import cmath
        return cmath.exp(complex(re, im))

    @property
    def pi(self):
        return math.pi

    def floor(self, x):
        return math.floor(x)

    def scalar(self, x):
        return float(x)

    def argmin(self, n, fn):
        """index of the smallest value; inputs with (near) ties are discarded"""
        v = [fn(i) for i in range(int(n))]
        k = min(range(len(v)), key=lambda i: v[i])
        m = max(1e-300, max(abs(x) for x in v))
        if any(i != k and abs(v[i] - v[k]) <= 1e-9 * m for i in range(len(v))):
            raise Discard()
        return k

    def argmax(self, n, fn):
        return self.argmin(n, lambda i: -fn(i))

    def largest(self, n, fn):
        """index of the largest value, the first one if tied"""
        v = [fn(i) for i in range(int(n))]
        return max(range(len(v)), key=lambda i: v[i])

    def truth(self, x):
        return bool(x)

    def dft(self, m, n, row):
        """(i, k) -> coefficient k of the discrete Fourier transform of row(i), by its definition"""
        import cmath
        n = int(n)
        tw = [cmath.exp(-2j * cmath.pi * k / n) for k in range(n)]
        rows = [[float(v) for v in row(i)] for i in range(int(m))]
        memo = {}

        def get(i, k):
            if (i, k) not in memo:
                r = rows[i]
                memo[i, k] = sum(r[j] * tw[j * k % n] for j in range(n))
            return memo[i, k]
        return get

    def note(self, *a):
        pass


def trap(c, n, y, x):
    """trapezoidal integral of y over x"""
    return c.sum(n - 1, lambda i: (y(i) + y(i + 1)) * 0.5 * (x(i + 1) - x(i)))


# ---------------------------------------------------------------------------
# symbolic context
# ---------------------------------------------------------------------------
class Symbolic:
    symbolic = True

    def __init__(self, E, mode='U', sizes=(1, 2, 3)):
        from . import core, nd, seq
        self.E, self.core, self.nd, self.seq = E, core, nd, seq
        self.mode = mode
        self.sizes = sizes
        self.obligations = []
        self.inputs = {}
        self.tier = 0

    # inputs ------------------------------------------------------------------
    def _size(self, name, lo, hi):
        top = [s for s in self.sizes if s >= lo and (hi is None or s <= hi)] or [lo]
        i = self.choice('size!' + name, top)
        self.inputs[name] = ('int', i)
        return i

    def int(self, name, lo=0, hi=None, small=None, size=False, gen=None):
        import z3
        v = z3.Int('in!' + name)
        self.inputs[name] = ('int', v)
        if lo is not None:
            self.E.assume(v >= lo)
        if hi is not None:
            self.E.assume(v <= hi)
        return self.core.SInt(v)

    def size(self, name, lo=1, hi=None):
        if self.mode == 'B':
            return self._size(name, lo, hi)
        return self.int(name, lo)

    def real(self, name, lo=None, hi=None, nan=False, grid=None, open_lo=False, gen=None):
        import z3
        v = z3.Real('in!' + name)
        f = z3.Bool('in!nan!' + name) if nan else False
        self.inputs[name] = ('real', v, f)
        if lo is not None:
            self.E.assume(v > lo if open_lo else v >= lo)
        if hi is not None:
            self.E.assume(v <= hi)
        return self.core.SFlt(v, f)

    def bool(self, name):
        import z3
        v = z3.Bool('in!' + name)
        self.inputs[name] = ('bool', v)
        return self.core.SBool(v)

    def choice(self, name, options):
        import z3
        v = z3.Int('in!' + name)
        self.inputs[name] = ('choice', v)
        self.E.assume(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.E.branch(v == i):
                return options[i]
        return options[-1]

    def string(self, name):
        import z3
        v = z3.Int('in!' + name)
        self.inputs[name] = ('string', v)
        return self.core.SStr(v)

    def vec(self, name, n, lo=None, hi=None, nan=False, grid=None, ties=True, kind='f', scale=True):
        return self.mat(name, (n,), lo, hi, nan, grid, ties, kind)

    def mat(self, name, shape, lo=None, hi=None, nan=False, grid=None, ties=True, kind='f'):
        import z3
        core = self.core
        I = z3.IntSort()
        srt = {'f': z3.RealSort(), 'i': I, 'b': z3.BoolSort()}[kind]
        F = z3.Function('in!' + name, *([I] * len(shape) + [srt]))
        G = z3.Function('in!nan!' + name, *([I] * len(shape) + [z3.BoolSort()])) if nan else None
        self.inputs[name] = ('array', F, G, [core.integer(s) for s in shape])

        def get(*ix):
            ix = [core.integer(i) for i in ix]
            t = F(*ix)
            if kind == 'f':
                return core.SFlt(t, G(*ix) if nan else False)
            return core.SInt(t) if kind == 'i' else core.SBool(t)
        if lo is not None or hi is not None:
            self.bounds(shape, get, lo, hi)
            dims = [core.integer(s) for s in shape]

            def at(*ix):
                x = F(*ix)
                cs = ([x >= core.real(lo) if kind == 'f' else x >= core.integer(lo)] if lo is not None else []) + \
                     ([x <= core.real(hi) if kind == 'f' else x <= core.integer(hi)] if hi is not None else [])
                return z3.Implies(z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ix, dims)]), z3.And(*cs))
            self.E.bounds['in!' + name] = at
        return self.nd.Nd.make(shape, get)

    def bounds(self, shape, get, lo, hi):
        core = self.core

        def ok(*ix):
            x = get(*ix)
            cs = []
            if lo is not None:
                cs.append(core.compare('>=', core.SFlt(x.e) if isinstance(x, core.SFlt) else x, lo))
            if hi is not None:
                cs.append(core.compare('<=', core.SFlt(x.e) if isinstance(x, core.SFlt) else x, hi))
            return core.land(*cs)

        def rec(ix, rest):
            if not rest:
                return ok(*ix)
            return core.forall(rest[0], lambda i: rec(ix + [i], rest[1:]))
        self.assume(rec([], list(shape)))

    def increasing(self, name, n, lo=None, step_lo=0, step_hi=None, grid=None):
        core = self.core
        v = self.vec(name, n)
        self.assume(core.forall(core.sub(n, 1), lambda i: core.compare('<', v.at(i), v.at(core.add(i, 1)))))
        # transitivity of the order, as a derived fact of the strict steps
        self._mono = getattr(self, '_mono', [])
        f = v
        import z3
        rank = z3.Function('in!rk!' + name, z3.RealSort(), z3.IntSort())
        self.assume(core.forall(n, lambda i: core.mkbool(rank(core.real(f.at(i))) == core.integer(i))))
        self.assume(core.forall(n, lambda i: core.forall(i, lambda j: core.compare('<', v.at(j), v.at(i)))))
        return v

    def order(self, name, n):
        raise self.core.Unsupported('order')

    def family(self, n, fn):
        import z3
        core, seq = self.core, self.seq
        if not core.is_sym(n):
            return seq.SList([fn(i) for i in range(n)])
        E = self.E
        k = E.index_var('fam')
        since = E.serial
        ps = core.explore(lambda: seq.seq_of(fn(core.SInt(k)), k, n, since), [z3.And(k >= 0, k < core.integer(n))])
        if len(ps) != 1 or ps[0].kind != 'ok':
            if ps and ps[0].kind == 'exc':
                raise ps[0].value
            raise core.Unsupported('a family whose members take several paths')
        r = seq.SList()
        r.set_content(ps[0].value)
        return r

    each = family

    # logic ------------------------------------------------------------------
    def assume(self, cond):
        core = self.core
        c = core.conc(cond)
        if isinstance(c, bool):
            if not c:
                raise core.Infeasible()
            return
        if c is False:
            raise core.Infeasible()
        self.E.assume(core.boolean(c))

    def call(self, fn, *a, **k):
        core = self.core
        try:
            return Outcome(True, fn(*a, **k))
        except Exception as e:
            if getattr(e, '_pydv_modelled', False):
                return Outcome(False, None, e)
            tb = traceback.extract_tb(e.__traceback__)[-3:]
            raise core.Unsupported(f'native {type(e).__name__}: {e} at ' + ' < '.join(f'{f.filename.split("/")[-1]}:{f.lineno}' for f in reversed(tb)))

    def check(self, name, cond):
        core = self.core
        c = core.conc(cond)
        import z3
        g = core.boolean(c)
        self.obligations.append((name, list(self.E.pc), g))

    def lemma(self, name, cond):
        """an obligation like any other, and a fact for what comes after it"""
        self.check(name, cond)
        self.assume(cond)

    def forall(self, n, fn):
        return self.core.forall(n, lambda i: self.b(fn(i)))

    def b(self, x):
        x = self.core.conc(x)
        return x

    def exists(self, n, fn):
        return self.core.exists(n, lambda i: self.b(fn(i)))

    def sum(self, n, fn):
        return self.core.total(n, fn)

    def arbitrary(self, name):
        """A callable answering any number at all, iteration by iteration."""
        import z3
        calls = [0]

        def get(*a, **k):
            g = self.E.generics
            calls[0] += not g
            nm = f'in!any!{name}!{len(g)}' + ('' if g else f'!{calls[0]}')
            return self.core.SFlt(z3.Function(nm, *([z3.IntSort()] * len(g) + [z3.RealSort()]))(*g) if g else z3.Real(nm), False)
        return get

    def select(self, n, fn):
        m, sel, _ = self.core.filtered(n, lambda i: self.b(fn(i)))
        return m, sel

    def count(self, n, fn):
        core = self.core
        return core.total(n, lambda i: core.ite(fn(i), 1, 0))

    def len(self, x):
        from .builtins_proxy import p_len
        return p_len(x)

    def at(self, a, *i):
        nd = self.nd
        if isinstance(a, nd.Nd):
            if len(i) == a.ndim:
                return a.at(*i)
            for j in i:
                a = a._drop_dim(j)
            return a
        s = self.seq.as_seq(a)
        if s is not None and len(i) == 1:
            return s.get(i[0])
        return a[i if len(i) > 1 else i[0]]

    def implies(self, a, b):
        core = self.core
        a = core.conc(a)
        if a is False:
            return True
        if callable(b) and not core.is_sym(b):
            if a is not True:
                # evaluate under the hypothesis
                ps = core.explore(lambda: b(), [core.boolean(a)])
                if not ps:
                    return True
                for p in ps:
                    if p.kind == 'exc':
                        raise p.value
                b = core.cover(ps, lambda p: p.value)
            else:
                b = b()
        return core.implies(a, b)

    def ite(self, c, a, b):
        return self.seq.merge(c if not self.core.is_sym(c) else self.core.boolean(c), a, b)

    def and_(self, *xs):
        return self.core.land(*[x() if callable(x) and not self.core.is_sym(x) else x for x in xs])

    def or_(self, *xs):
        return self.core.lor(*[x() if callable(x) and not self.core.is_sym(x) else x for x in xs])

    def not_(self, x):
        return self.core.lnot(x)

    def eq(self, a, b, tol=None, scale=None):
        return self.core.same(a, b)

    def is_(self, a, b):
        core = self.core
        a, b = core.conc(a), core.conc(b)
        if isinstance(a, (core.SStr, str)) or isinstance(b, (core.SStr, str)):
            r = core.compare('==', a, b) if (core.is_sym(a) or core.is_sym(b)) else a == b
            return r
        if core._operand(a) and core._operand(b):
            return core.same(a, b)
        if a is b:
            return True
        if not (core.is_sym(a) or core.is_sym(b)):
            return a == b
        return False

    def le(self, a, b, tol=None):
        return self.core.compare('<=', a, b)

    def isnan(self, x):
        return self.nd.isnan(x) if isinstance(x, self.nd.Nd) else self.core.mkbool(self.core.nanB(self.core.nanflag(x)))

    def abs(self, x):
        return self.core.absolute(x)

    def sqrt(self, x):
        return self.core.ufun('sqrt', x)

    def quot(self, a, b):
        return self.nd.ndiv(a, b)

    def cexp(self, re, im):
        core = self.core
        return core.cexp(core.SCpx(core.real(re), core.real(im)))

    @property
    def pi(self):
        return self.core.SFlt(self.E.PI)

    def floor(self, x):
        import z3
        return self.core.simp_int(z3.ToInt(self.core.real(x)))

    def argmin(self, n, fn):
        return self.core.extremum(n, fn, 'min')[1]

    def argmax(self, n, fn):
        return self.core.extremum(n, fn, 'max')[1]

    def largest(self, n, fn):
        return self.core.extremum(n, fn, 'max')[1]

    def truth(self, x):
        return x

    def dft(self, m, n, row):
        nd = self.nd

        def get(i, k):
            return nd.np_fft(row(i)).at(k)
        return get

    def scalar(self, x):
        nd = self.nd
        return x.at() if isinstance(x, nd.Nd) and x.ndim == 0 else x

    def note(self, *a):
        pass


# ---------------------------------------------------------------------------
# running
# ---------------------------------------------------------------------------
def run_symbolic(con, mode='U', budget=None, max_paths=400):
    """Explore all paths of a contract; returns a report dict."""
    import time
    from . import core, prover
    t0 = time.time()
    budget = budget or con.extra.get('budget', 60.0)
    rep = {'contract': con.id, 'mode': mode, 'paths': 0, 'obligations': {}, 'status': 'ok', 'reason': None,
           'assumptions': {}, 'functions': con.functions, 'models': []}
    prefix = []
    for k in prover.STATS:
        prover.STATS[k] = 0
    while prefix is not None:
        if time.time() - t0 > budget:
            rep['status'], rep['reason'] = 'budget', f'time budget after {rep["paths"]} paths'
            break
        if rep['paths'] >= max_paths:
            rep['status'], rep['reason'] = 'budget', 'too many paths'
            break
        E = core.Engine(prefix)
        core.set_engine(E)
        c = Symbolic(E, mode, con.sizes)
        feasible = True
        problem = None
        try:
            con.fn(c)
        except core.Infeasible:
            feasible = False
        except core.Unsupported as e:
            problem = ('unsupported', str(e), where(e))
        except Exception as e:
            problem = ('raised' if getattr(e, '_pydv_modelled', False) else 'unsupported', f'{type(e).__name__}: {e}', where(e))
        if problem is not None:
            # either the path is contradictory or the problem is real
            try:
                bad = prover.discharge(E, list(E.pc), z3_false(), timeout=con.timeout, rounds=con.rounds, deadline=t0 + budget)
                contradictory = bad.status == 'proved'
            except Exception:
                contradictory = False
            if contradictory:
                feasible = False
            elif problem[0] == 'raised':
                rep['where'] = problem[2]
                c.obligations.append(('observation raises ' + problem[1], list(E.pc), z3_false()))
            else:
                rep['status'], rep['reason'], rep['where'] = problem
        core.set_engine(None)
        for a, m in E.assumptions.items():
            rep['assumptions'][a] = rep['assumptions'].get(a, 0) + m
        if feasible:
            core.set_engine(E)
            rep['paths'] += 1
            for name, pc, goal in c.obligations:
                o = rep['obligations'].setdefault(name, {'status': 'proved', 'instances': 0, 'seconds': 0.0, 'backends': {}})
                left = budget - (time.time() - t0)
                if left <= 0:
                    o['status'] = 'unknown' if o['status'] == 'proved' else o['status']
                    continue
                r = prover.discharge(E, pc, goal, timeout=con.timeout, rounds=con.rounds, deadline=t0 + budget)
                o['instances'] += 1
                o['seconds'] += r.seconds
                o['backends'][r.backend] = o['backends'].get(r.backend, 0) + 1
                if r.status == 'sat':
                    o['status'] = 'sat'
                    if r.model is not None and len(rep['models']) < 6:
                        rep['models'].append({'obligation': name, 'inputs': concretise(c, E, r.model)})
                elif r.status == 'unknown' and o['status'] == 'proved':
                    o['status'] = 'unknown'
            core.set_engine(None)
        if rep['status'] != 'ok':
            break
        prefix = core.next_prefix(E.decisions)
    rep['wall'] = time.time() - t0
    rep['solver'] = dict(prover.STATS)
    return rep


def z3_false():
    import z3
    return z3.BoolVal(False)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    out = [f'{f.filename.split("/")[-1]}:{f.lineno}:{f.name}' for f in tb]
    return out[-6:]


def concretise(c, E, model):
    """Input values of a counter-model, in the format of Concrete.inputs."""
    import z3

    def num(t):
        v = model.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            v = v.approx(12)
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return 0

    out = {}
    for name, t in c.inputs.items():
        try:
            if t[0] in ('int', 'bool', 'choice'):
                out[name] = t[1] if isinstance(t[1], int) else num(t[1])
            elif t[0] == 'real':
                x = num(t[1])
                if t[2] is not False and num(t[2]):
                    x = float('nan')
                out[name] = float(x)
            elif t[0] == 'string':
                out[name] = 's%d' % num(t[1])
            elif t[0] == 'array':
                _, F, G, dims = t
                ds = [num(d) for d in dims]
                if any(d < 0 or d > 60 for d in ds):
                    return None

                def rec(ix, rest):
                    if not rest:
                        ii = [z3.IntVal(i) for i in ix]
                        if G is not None and num(G(*ii)):
                            return float('nan')
                        return num(F(*ii))
                    return [rec(ix + [i], rest[1:]) for i in range(rest[0])]
                out[name] = rec([], ds)
        except Exception:
            return None
    return out


def run_concrete(con, trials, seed, given=None, pool=(), deadline=None):
    """Search for a failing concrete input.  Returns dict."""
    import time
    t0 = time.time()
    rep = {'contract': con.id, 'trials': 0, 'nontrivial': 0, 'discarded': 0, 'checks': 0, 'failure': None, 'errors': [],
           'digests': [], 'samples': []}
    todo = given if given is not None else [None] * trials
    for t, g in enumerate(todo):
        if deadline and time.time() > deadline:
            break
        rng = random.Random(f'{con.id}/{seed}/{t}')
        c = Concrete(rng, g, pool)
        c.trial = t
        try:
            con.fn(c)
            rep['trials'] += 1
            rep['checks'] += c.checks
            rep['nontrivial'] += 1 if c.checks else 0
            if c.checks and given is None:
                text = json.dumps(c.inputs, default=str, sort_keys=True)
                rep['digests'].append(hashlib.sha1(text.encode()).hexdigest()[:12])
                if len(rep['samples']) < 2 and len(text) < 1500:
                    rep['samples'].append(c.inputs)
        except Discard:
            rep['discarded'] += 1
        except CheckFailed as e:
            rep['trials'] += 1
            rep['checks'] += c.checks
            rep['failure'] = {'contract': con.id, 'obligation': str(e), 'inputs': c.inputs, 'trial': t, 'seed': seed}
            return rep
        except Exception as e:
            tb = traceback.format_exc()
            if given is not None:
                rep['errors'].append(f'{type(e).__name__}: {e}')
                continue
            # the observation itself failed (an attribute or method the
            # property needs behaves otherwise): that is a failure of the
            # property unless it comes from the harness
            rep['trials'] += 1
            rep['failure'] = {'contract': con.id, 'obligation': f'observation raised {type(e).__name__}: {e}',
                              'inputs': c.inputs, 'trial': t, 'seed': seed, 'traceback': tb[-2000:]}
            return rep
    rep['wall'] = time.time() - t0
    return rep
