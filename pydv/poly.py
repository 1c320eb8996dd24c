"""Canonical polynomial form of arithmetic terms.

Every real or integer term is rewritten as a polynomial over its atoms and the
inverses of (provably non-zero) denominators; each nonlinear monomial then
becomes one fresh variable.  The result is a weaker (linear) theory, so an
unsat answer carries over to the original formulas; monomials are equal
whenever they are equal as products.  Sign facts about monomials are added.
"""
import time
from fractions import Fraction
import z3

LIMIT = 400


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            c = r.get(m, 0) + c
            if c:
                r[m] = c
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()} if k else {})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        if len(self.t) * len(o.t) > LIMIT:
            raise TooBig()
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mmul(m, n)
                x = r.get(k, 0) + c * d
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return Poly(r)

    def isconst(self):
        return all(m == () for m in self.t)

    def constant(self):
        return self.t.get((), Fraction(0))


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        e += d.get(a, 0)
        if e:
            d[a] = e
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


class PolyAbstractor:
    def __init__(self, hyps):
        self.hyps = hyps
        self.cache = {}
        self.polys = {}
        self.atoms = []          # id -> abstracted z3 term
        self.atom_of = {}        # z3 ast id -> atom id
        self.monos = {}
        self.facts = []
        self.keep = []
        self.used = False
        self.sgn = {}
        self.solver = None
        self.sub = None
        self.subst = []
        self.busy = False
        self.budget = 15.0

    # --- what the hypotheses say about a term --------------------------------
    def sign(self, e):
        """'+', '-', '0' (non-zero) or None for an original real/int term"""
        k = e.get_id()
        if k in self.sgn:
            return self.sgn[k]
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = e.as_fraction() if z3.is_rational_value(e) else e.as_long()
            return '+' if v > 0 else ('-' if v < 0 else None)
        if self.solver is None:
            from .prover import Abstractor
            self.lin = Abstractor()
            self.solver = z3.Solver()
            self.solver.set('timeout', 200)
            for h in self.hyps:
                self.solver.add(self.lin(h))
        r = None
        a = self.lin(e)
        self.solver.add(*self.lin.facts)
        self.lin.facts = []

        def holds(f):
            if self.budget <= 0:
                return False
            t0 = time.time()
            self.solver.push()
            self.solver.add(z3.Not(f))
            u = self.solver.check() == z3.unsat
            self.solver.pop()
            self.budget -= time.time() - t0
            return u
        if z3.is_mul(e):
            ss = [self.sign(c) for c in e.children()]
            if all(s in ('+', '-') for s in ss):
                r = '-' if sum(s == '-' for s in ss) % 2 else '+'
            elif all(ss):
                r = '0'
        if r is None:
            r = '+' if holds(a > 0) else ('-' if holds(a < 0) else ('0' if holds(a != 0) else None))
        self.sgn[k] = r
        self.keep.append(e)
        return r

    # --- atoms and monomials --------------------------------------------------
    def atom(self, t, inv_of=None):
        i = self.atom_of.get(t.get_id())
        if i is None:
            i = len(self.atoms)
            self.atoms.append((t, t.is_int(), inv_of))
            self.atom_of[t.get_id()] = i
            self.keep.append(t)
        return i

    def mono(self, m):
        """z3 term (Int if all its atoms are Int) of a monomial"""
        if m in self.monos:
            return self.monos[m]
        flat = [a for a, e in m for _ in range(abs(e))]
        isint = all(self.atoms[a][1] and e > 0 for a, e in m)
        if len(m) == 1 and m[0][1] == 1:
            r = self.atoms[m[0][0]][0]
            self.monos[m] = r
            return r
        self.used = True
        n = 'mono!' + '*'.join(f'{a}^{e}' if e != 1 else str(a) for a, e in m)
        r = z3.Int(n) if isint else z3.Real(n)
        self.monos[m] = r
        # sign facts
        fs = []
        for a, e in m:
            t = self.atoms[a][0]
            z = 0
            fs.append((t > z, t < z, t == z, e))
        allpos = z3.And(*[p for p, _, _, _ in fs])
        self.facts.append(z3.Implies(allpos, r > 0))
        if all(e > 0 for _, e in m):
            self.facts.append((r == 0) == z3.Or(*[z for _, _, z, _ in fs]))
        if all(e % 2 == 0 for _, e in m):
            self.facts.append(r >= 0)
        if len(fs) == 2 and all(e % 2 for _, _, _, e in fs):
            (p, n_, _, _), (q, m_, _, _) = fs
            self.facts.append(z3.Implies(z3.Or(z3.And(p, m_), z3.And(n_, q)), r < 0))
            self.facts.append(z3.Implies(z3.And(n_, m_), r > 0))
        if len(m) == 1 and m[0][1] == -1:
            t = self.atoms[m[0][0]][0]
            self.facts.append(z3.Implies(t > 0, r > 0))
            self.facts.append(z3.Implies(t < 0, r < 0))
        if isint and len(m) == 2 and all(e == 1 for _, e in m):
            x, y = self.atoms[m[0][0]][0], self.atoms[m[1][0]][0]
            self.facts.append(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(r >= x, r >= y)))
        return r

    def back(self, p, isint):
        out = []
        c0 = Fraction(0)
        for m, c in sorted(p.t.items()):
            if m == ():
                c0 = c
                continue
            t = self.mono(m)
            if isint:
                out.append(t if c == 1 else int(c) * t)
            else:
                t = z3.ToReal(t) if t.is_int() else t
                out.append(t if c == 1 else z3.RealVal(str(c)) * t)
        k = z3.IntVal(int(c0)) if isint else z3.RealVal(str(c0))
        if not out:
            return k
        s = z3.Sum(*out) if len(out) > 1 else out[0]
        return s + k if c0 else s

    # --- polynomials ----------------------------------------------------------
    def poly(self, e):
        k = e.get_id()
        if k in self.polys:
            return self.polys[k]
        try:
            p = self._poly(e)
        except TooBig:
            p = Poly({((self.atom(self.leaf(e)), 1),): Fraction(1)})
        self.polys[k] = p
        self.keep.append(e)
        return p

    def aspoly(self, t):
        return Poly({((self.atom(t), 1),): Fraction(1)})

    def _poly(self, e):
        if z3.is_rational_value(e):
            return Poly.const(e.as_fraction())
        if z3.is_int_value(e):
            return Poly.const(e.as_long())
        d = e.decl().kind()
        if d == z3.Z3_OP_ADD:
            r = Poly()
            for c in e.children():
                r = r + self.poly(c)
            return r
        if d == z3.Z3_OP_SUB:
            r = self.poly(e.arg(0))
            for c in e.children()[1:]:
                r = r - self.poly(c)
            return r
        if d == z3.Z3_OP_UMINUS:
            return self.poly(e.arg(0)).scale(-1)
        if d == z3.Z3_OP_MUL:
            r = Poly.const(1)
            for c in e.children():
                r = r * self.poly(c)
            return r
        if d == z3.Z3_OP_TO_REAL:
            return self.poly(e.arg(0))
        if d == z3.Z3_OP_DIV:
            n, m = self.poly(e.arg(0)), self.poly(e.arg(1))
            if m.isconst() and m.constant():
                return n.scale(1 / m.constant())
            if self.sign(e.arg(1)):
                return n * self.inverse(m)
            return self.aspoly(self.leaf(e))
        if d == z3.Z3_OP_TO_INT:
            p = self.poly(e.arg(0))
            q, rest = Poly(), Poly()
            for m, c in p.t.items():
                one = Poly({m: c})
                if c.denominator == 1 and all(self.atoms[a][1] and x > 0 for a, x in m):
                    q = q + one
                else:
                    rest = rest + one
            if not rest.t:
                return q
            if rest.isconst():
                c = rest.constant()
                return q + Poly.const(c.numerator // c.denominator)
            t = z3.ToInt(self.back(rest, False))
            return q + self.aspoly(t)
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            n, m = self.poly(e.arg(0)), self.poly(e.arg(1))
            s = self.sign(e.arg(1))
            if s == '+':
                q = self.idiv(n, m)
                return q if d == z3.Z3_OP_IDIV else n - m * q
            return self.aspoly(self.leaf(e))
        return self.aspoly(self.leaf(e))

    def idiv(self, n, m):
        """floor(n/m) for integer polynomials, m > 0"""
        q, rest = Poly(), n
        if len(m.t) == 1:
            (mm, mc), = m.t.items()
            for k, c in n.t.items():
                r = mmul(k, tuple((a, -x) for a, x in mm))
                if all(x > 0 for _, x in r) and (c / mc).denominator == 1:
                    q = q + Poly({r: c / mc})
                    rest = rest - Poly({k: c})
        if not rest.t:
            return q
        if rest.isconst() and m.isconst():
            return q + Poly.const(rest.constant() // m.constant())
        a, b = self.back(rest, True), self.back(m, True)
        if m.isconst():
            return q + self.aspoly(a / b)
        self.used = True
        f = z3.Function('idiv!', z3.IntSort(), z3.IntSort(), z3.IntSort())
        t = f(a, b)
        p = self.aspoly(t)
        if t.get_id() not in self.cache:
            self.cache[t.get_id()] = t
            self.keep.append(t)
            mq = self.back(m * p, True)
            self.facts.append(z3.And(mq <= a, a < mq + b))
            self.facts.append(z3.Implies(a >= 0, z3.And(t >= 0, t <= a)))
            self.facts.append(z3.Implies(z3.And(a >= 0, a < b), t == 0))
            self.facts.append(z3.Implies(a >= b, t >= 1))
        return q + p

    def inverse(self, m):
        if len(m.t) == 1:
            (mm, c), = m.t.items()
            return Poly({tuple((a, -x) for a, x in mm): 1 / c})
        lead = sorted(m.t.items())[0][1]
        mono = m.scale(1 / lead)
        t = self.back(mono, False)
        i = self.atom(t, mono)
        return Poly({((i, -1),): 1 / lead})

    def leaf(self, e):
        """an atom: the term with its arguments abstracted"""
        if e.num_args() == 0:
            return e
        if e.decl().kind() in (z3.Z3_OP_ITE,):
            c, a, b = e.children()
            return z3.If(self(c), self(a), self(b))
        ch = [self(c) for c in e.children()]
        return e.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, e.children())) else e

    # --- formulas ---------------------------------------------------------------
    def __call__(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        r = self._conv(e)
        self.cache[k] = r
        self.keep += [e, r]
        return r

    def _conv(self, e):
        if z3.is_quantifier(e):
            return e
        if z3.is_arith(e):
            return self.back(self.poly(e), e.is_int())
        d = e.decl().kind()
        if d in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (d == z3.Z3_OP_EQ and z3.is_arith(e.arg(0))):
            return self.atomic(e, d)
        if e.num_args() == 0:
            return e
        ch = [self(c) for c in e.children()]
        if d == z3.Z3_OP_AND:
            return z3.And(*ch)
        if d == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if d == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        return e.decl()(*ch)

    def atomic(self, e, d):
        a, b = e.children()
        isint = a.is_int() and b.is_int()
        try:
            p = self.poly(a) - self.poly(b)
            p, ok = self.clear(p, d == z3.Z3_OP_EQ)
        except TooBig:
            x, y = self(a), self(b)
            return {z3.Z3_OP_LE: x <= y, z3.Z3_OP_LT: x < y, z3.Z3_OP_GE: x >= y, z3.Z3_OP_GT: x > y, z3.Z3_OP_EQ: x == y}[d]
        if isint:
            den = 1
            for c in p.t.values():
                den = den * c.denominator
            p = p.scale(den)
        else:
            # canonical scale
            if p.t and p.t:
                lead = abs(sorted(p.t.items())[-1][1])
                p = p.scale(1 / lead)
        x = self.back(p, isint)
        z = z3.IntVal(0) if isint else z3.RealVal(0)
        return z3.simplify({z3.Z3_OP_LE: x <= z, z3.Z3_OP_LT: x < z, z3.Z3_OP_GE: x >= z, z3.Z3_OP_GT: x > z, z3.Z3_OP_EQ: x == z}[d])

    def clear(self, p, eq):
        """multiply by (positive or, for equalities, non-zero) denominators"""
        for _ in range(12):
            neg = {}
            for m in p.t:
                for a, x in m:
                    if x < 0:
                        neg[a] = min(neg.get(a, 0), x)
            todo = None
            for a, x in neg.items():
                t, _, mono = self.atoms[a]
                if eq or x % 2 == 0 or self.atom_sign(a) in ('+', '-'):
                    todo = (a, -x)
                    break
            if todo is None:
                return p, True
            a, x = todo
            t, _, mono = self.atoms[a]
            if mono is None:
                f = Poly({((a, x),): Fraction(1)})
                p = p * f
            else:
                r = Poly()
                for m, c in p.t.items():
                    have = dict(m).get(a, 0)
                    rest = tuple((b, y) for b, y in m if b != a)
                    q = Poly({rest: c})
                    for _ in range(have + x):
                        q = q * mono
                    r = r + q
                p = r
            if not eq and x % 2 and self.atom_sign(a) == '-':
                p = p.scale(-1)
        return p, False

    def atom_sign(self, a):
        return self.sign(self.atoms[a][0])


def solve_equalities(formulas):
    """Eliminate variables defined by an equality (x = e, x not in e)."""
    pairs = []
    fs = list(formulas)
    for _ in range(8):
        found = None
        for f in fs:
            if not (z3.is_eq(f) and z3.is_arith(f.arg(0))):
                continue
            for x, e in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == e.sort() and not occurs(x, e) \
                        and (e.num_args() > 0):
                    found = (x, e, f)
                    break
            if found:
                break
        if not found:
            break
        x, e, f = found
        pairs.append((x, e))
        fs = [z3.substitute(g, (x, e)) for g in fs if g is not f]
    return fs, pairs


def occurs(x, e):
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(x):
            return True
        st.extend(t.children())
    return False
