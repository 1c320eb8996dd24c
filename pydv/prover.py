"""Discharging verification conditions.

A condition is  pc & side facts & axioms  =>  goal.  The definitional symbols
of core.py are axiomatised by ground instances (quantifier-free): every
application of such a symbol in the condition is unfolded at its arguments, and
universally quantified parts are instantiated at index terms found by matching
the applications in the definition's body against the ground applications.
Adding instances is always sound; a condition is discharged when z3 (or, failing
that, cvc5) reports the negation unsatisfiable.
"""
import subprocess
import time
import z3
from . import core
from .core import eng, exprs_of, kind, subst, SInt, SFlt, SBool, SCpx, boolean, real, integer, nanB, nanflag


class Result:
    __slots__ = ('status', 'backend', 'seconds', 'model', 'ninst')

    def __init__(self, status, backend, seconds, model=None, ninst=0):
        self.status, self.backend, self.seconds, self.model, self.ninst = status, backend, seconds, model, ninst


STATS = {'z3': 0.0, 'cvc5': 0.0, 'queries': 0}


def appdecl(e):
    return e.decl().name()


class Full(Exception):
    """enough instances"""


def weight(t):
    """Small terms first."""
    n, todo = 0, [t]
    while todo:
        e = todo.pop()
        n += 1 if not z3.is_int_value(e) else abs(e.as_long())
        todo.extend(e.children())
    return n


class Instantiator:
    lean = False
    few = None
    until = None

    def __init__(self, E, limit=6000):
        self.E = E
        self.limit = limit
        self.out = []            # axiom instances
        self.seen_expr = set()
        self.apps = {}           # decl name -> {id: app}  (uninterpreted, ground)
        self.defapps = {}        # (Def id, args ids) -> (Def, args)
        self.done = set()
        self.skolems = {}        # id -> term, general purpose candidate indices
        self.pairs = {}
        self.patcache = {}
        self.keep = []
        self.new_exprs = []

    # -- scanning ------------------------------------------------------------
    def scan(self, *es):
        todo = list(es)
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in self.seen_expr:
                continue
            self.seen_expr.add(i)
            self.keep.append(e)
            if z3.is_quantifier(e) or z3.is_var(e):
                continue
            if z3.is_app(e):
                d = e.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = d.name()
                    got = self.E.defs.get(nm)
                    if e.num_args() or got is not None:
                        self.apps.setdefault(nm, {})[i] = e
                    if got is not None:
                        df, rn = got
                        args = e.children()[:len(df.params)]
                        self.defapps.setdefault((id(df),) + tuple(a.get_id() for a in args), (df, args))
                        if e.sort() == z3.IntSort() and rn in ('w', 'a', 'sel', 'perm', 'inv', 'rank'):
                            self.skolems[i] = e
                    elif e.num_args() == 0 and e.sort() == z3.IntSort() and i in self.E.index_consts:
                        self.skolems[i] = e
                todo.extend(e.children())

    def add(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self.done:
            return
        self.done.add(i)
        self.keep.append(f)
        self.out.append(f)
        self.new_exprs.append(f)
        if len(self.out) > 2 * self.limit or (self.until is not None and time.time() > self.until):
            raise Full()

    def flag(self, *ts):
        for t in ts:
            if t.get_id() not in self.E.index_consts:
                self.E.index_consts.add(t.get_id())
                self.E._keep = getattr(self.E, '_keep', [])
                self.E._keep.append(t)
            self.keep.append(t)

    # -- candidate indices -------------------------------------------------------
    def patterns(self, df, which, arr):
        """(decl name, arg position, sign, offset) for occurrences of the
        bound variable in uninterpreted applications of the body."""
        key = (id(df), which)
        got = self.patcache.get(key)
        if got is not None:
            return got
        n, vs, b = arr
        out = []
        seen = set()
        todo = list(exprs_of(b))
        v = vs[0]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
                    for p, a in enumerate(e.children()):
                        if a.sort() == z3.IntSort() and core._contains(a, v):
                            off = z3.simplify(z3.substitute(a, (v, z3.IntVal(0))))
                            for sg in (1, -1):
                                if z3.simplify(a - (off + sg * v)).eq(z3.IntVal(0)):
                                    out.append((e.decl().name(), p, sg, off))
                                    break
                    inner = self.E.defs.get(e.decl().name())
                    if inner is not None and len(seen) < 600:
                        # look into the body of a nested definition
                        idf = inner[0]
                        ar, _ = idf.at(e.children()[:len(idf.params)])
                        for _, _, ib in ar:
                            todo.extend(exprs_of(ib))
                todo.extend(e.children())
        self.patcache[key] = out
        return out

    def candidates(self, df, args, which, arr, extra=()):
        """Ground index terms for the bound variable of an array argument."""
        ps = list(zip(df.params, args))
        out = {}

        def put(t):
            t = z3.simplify(t)
            out.setdefault(t.get_id(), t)
            self.keep.append(t)
        for t in extra:
            put(t)
        n = df.at(args)[0][which][0]
        if not self.lean:
            put(z3.IntVal(0))
            put(n - 1)
        pats = self.patterns(df, which, arr)
        for nm, p, sg, off in pats:
            for a in list(self.apps.get(nm, {}).values()):
                t = a.arg(p)
                o = z3.substitute(off, *ps) if ps else off
                put(t - o if sg == 1 else o - t)
        if not self.lean:
            for t in list(self.skolems.values()):
                put(t)
        if self.few:
            return sorted(out.values(), key=weight)[:self.few]
        return list(out.values())

    # -- axioms ---------------------------------------------------------------
    def term(self, df, rn, args, *ix):
        dc = df.decls[rn]
        if isinstance(dc, z3.FuncDeclRef):
            return dc(*args, *ix)
        return dc

    def at(self, b, vs, ts):
        return subst(b, list(zip(vs, ts)))

    def round(self):
        """One round of instantiation; returns number of new instances."""
        before = len(self.out)
        items = list(self.defapps.values())
        try:
            for df, args in items:
                getattr(self, 'ax_' + df.kind)(df, args)
            self.pair_axioms(items)
            self.uf_axioms()
        except Full:
            pass
        new = self.new_exprs
        self.new_exprs = []
        self.scan(*new)
        return len(self.out) - before

    def ax_forall(self, df, args):
        (arr,), _ = df.at(args)
        n, vs, b = arr
        Q, w = self.term(df, 'Q', args), self.term(df, 'w', args)
        bw = boolean(self.at(b, vs, [w]))
        self.add(z3.Implies(z3.Not(Q), z3.And(w >= 0, w < n, z3.Not(bw))))
        self.add(z3.Implies(n <= 0, Q))
        for t in self.candidates(df, args, 0, df.arrays[0], ):
            bt = boolean(self.at(b, vs, [t]))
            self.add(z3.Implies(z3.And(Q, t >= 0, t < n), bt))
            if not t.eq(w):
                self.add(z3.Implies(z3.And(z3.Not(Q), t >= 0, t < w), bt))

    def ax_sum(self, df, args):
        (arr,), _ = df.at(args)
        n, vs, b = arr
        S = self.term(df, 'S', args)
        zero = z3.RealVal(0) if S.is_real() else z3.IntVal(0)
        val = (lambda x: real(x)) if S.is_real() else (lambda x: integer(x))
        self.add(z3.Implies(n <= 0, S == zero))
        b0 = val(self.at(b, vs, [z3.IntVal(0)]))
        self.add(z3.Implies(n == 1, S == b0))
        w = z3.Int(f'sneg!{df.name}!{S.get_id()}')
        u = z3.Int(f'spos!{df.name}!{S.get_id()}')
        self.flag(w, u)
        bw, bu = val(self.at(b, vs, [w])), val(self.at(b, vs, [u]))
        self.add(z3.Implies(S < zero, z3.And(w >= 0, w < n, bw < zero)))
        self.add(z3.Implies(S > zero, z3.And(u >= 0, u < n, bu > zero)))
        # a sum of non-negative terms bounds each of them
        for t in self.candidates(df, args, 0, df.arrays[0]):
            bt = val(self.at(b, vs, [t]))
            m = z3.Int(f'smin!{df.name}!{S.get_id()}')
            self.flag(m)
            bm = val(self.at(b, vs, [m]))
            self.add(z3.Implies(z3.And(t >= 0, t < n, S < bt), z3.And(m >= 0, m < n, bm < zero)))

    def ax_ext(self, df, args):
        (arr,), _ = df.at(args)
        n, vs, b = arr
        a = self.term(df, 'a', args)
        self.add(z3.Implies(n >= 1, z3.And(a >= 0, a < n)))
        mx = df.extra['which'] == 'max'
        val = lambda x: real(x) if kind(x) == 'f' else z3.ToReal(integer(x))
        va = val(self.at(b, vs, [a]))
        for t in self.candidates(df, args, 0, df.arrays[0]):
            if t.eq(a):
                continue
            vt = val(self.at(b, vs, [t]))
            le, lt = (vt <= va, vt < va) if mx else (vt >= va, vt > va)
            self.add(z3.Implies(z3.And(t >= 0, t < n), z3.And(le, z3.Implies(t < a, lt))))

    def ax_filter(self, df, args):
        (arr,), _ = df.at(args)
        n, vs, b = arr
        T = lambda rn, *ix: self.term(df, rn, args, *ix)
        ln = T('len')
        self.add(z3.And(ln >= 0, z3.Or(ln <= n, n < 0), z3.Implies(n <= 0, ln == 0)))
        nm = df.decls['sel'].name()
        np_ = len(args)

        def mine(rn):
            dc = df.decls[rn]
            return [a for a in list(self.apps.get(dc.name(), {}).values())
                    if all(x.eq(y) for x, y in zip(a.children()[:np_], args))]
        ranks = mine('rank')
        # positions: arguments of sel, skolems (through matching of uses)
        sels = {a.get_id(): a.arg(np_) for a in mine('sel')}
        for i in list(sels.values()):
            s = T('sel', i)
            self.add(z3.Implies(z3.And(i >= 0, i < ln),
                                z3.And(s >= 0, s < n, boolean(self.at(b, vs, [s])), T('rank', s) == i)))
        js = self.candidates(df, args, 0, df.arrays[0])
        for j in js:
            if self.is_app_of(j, df.decls['rank'], args):
                continue
            bj = boolean(self.at(b, vs, [j]))
            r = T('rank', j)
            self.add(z3.Implies(z3.And(j >= 0, j < n, bj), z3.And(r >= 0, r < ln, T('sel', r) == j)))
        sl = list(sels.values())
        for x in range(len(sl)):
            for y in range(len(sl)):
                if x != y:
                    self.add(z3.Implies(z3.And(sl[x] >= 0, sl[x] < sl[y], sl[y] < ln), T('sel', sl[x]) < T('sel', sl[y])))
        rk = [a.arg(np_) for a in ranks]
        for x in range(len(rk)):
            for y in range(len(rk)):
                if x != y:
                    bx, by = boolean(self.at(b, vs, [rk[x]])), boolean(self.at(b, vs, [rk[y]]))
                    self.add(z3.Implies(z3.And(rk[x] >= 0, rk[x] < rk[y], rk[y] < n, bx, by), T('rank', rk[x]) < T('rank', rk[y])))
        # everything selected: the identity
        q = z3.Int(f'fid!{df.name}!{ln.get_id()}')
        self.flag(q)
        bq = boolean(self.at(b, vs, [q]))
        same = [T('sel', i) == i for i in sl]
        self.add(z3.Or(z3.And(q >= 0, q < n, z3.Not(bq)), z3.And(z3.Or(ln == n, n < 0))))
        for i in sl:
            self.add(z3.Or(z3.And(q >= 0, q < n, z3.Not(bq)), z3.Implies(z3.And(i >= 0, i < n), T('sel', i) == i)))
        # nothing selected
        z = z3.Int(f'fem!{df.name}!{ln.get_id()}')
        self.flag(z)
        bz = boolean(self.at(b, vs, [z]))
        self.add(z3.Or(ln == 0, z3.And(z >= 0, z < n, bz)))

    def is_app_of(self, t, dc, args):
        return z3.is_app(t) and t.decl().eq(dc) and all(x.eq(y) for x, y in zip(t.children()[:len(args)], args))

    def ax_sort(self, df, args):
        (arr,), _ = df.at(args)
        n, vs, b = arr
        np_ = len(args)
        T = lambda rn, *ix: self.term(df, rn, args, *ix)

        def mine(rn):
            dc = df.decls[rn]
            return [a.arg(np_) for a in list(self.apps.get(dc.name(), {}).values())
                    if all(x.eq(y) for x, y in zip(a.children()[:np_], args))]
        ps = mine('perm')
        val = lambda x: real(x) if kind(x) == 'f' else z3.ToReal(integer(x))
        for i in ps:
            p = T('perm', i)
            self.add(z3.Implies(z3.And(i >= 0, i < n), z3.And(p >= 0, p < n, T('inv', p) == i)))
        for j in self.candidates(df, args, 0, df.arrays[0]):
            if self.is_app_of(j, df.decls['inv'], args):
                continue
            q = T('inv', j)
            self.add(z3.Implies(z3.And(j >= 0, j < n), z3.And(q >= 0, q < n, T('perm', q) == j)))
        stable = df.extra.get('stable')
        for x in ps:
            for y in ps:
                if not x.eq(y):
                    kx, ky = val(self.at(b, vs, [T('perm', x)])), val(self.at(b, vs, [T('perm', y)]))
                    c = kx <= ky
                    if stable:
                        c = z3.And(c, z3.Implies(kx == ky, T('perm', x) < T('perm', y)))
                    self.add(z3.Implies(z3.And(x >= 0, x < y, y < n), c))
        # an already (strictly) sorted key: the identity
        q = z3.Int(f'srt!{df.name}!' + '!'.join(str(a.get_id()) for a in args))
        self.flag(q)
        k1, k2 = val(self.at(b, vs, [q])), val(self.at(b, vs, [q + 1]))
        bad = z3.And(q >= 0, q + 1 < n, (k1 > k2) if stable else (k1 >= k2))
        for i in ps:
            self.add(z3.Or(bad, z3.Implies(z3.And(i >= 0, i < n), T('perm', i) == i)))

    def ax_op(self, df, args):
        ax = df.extra.get('axiom')
        if ax is not None:
            ax(self, df, args)

    def differ(self, b1, vs1, b2, vs2, ds):
        x, y = self.at(b1, vs1, ds), self.at(b2, vs2, ds)
        return z3.Not(boolean(core.same(x, y)))

    def pair_axioms(self, items):
        sums = [(d, a) for d, a in items if d.kind == 'sum']
        for i in range(len(sums)):
            for j in range(i + 1, len(sums)):
                self.sum_pair(sums[i], sums[j])
                if len(self.out) > self.limit:
                    return
        groups = {}
        for d, a in items:
            if d.kind == 'op':
                groups.setdefault(d.name, []).append((d, a))
            elif d.kind in ('filter', 'sort'):
                groups.setdefault('*' + d.kind, []).append((d, a))
        for name, g in groups.items():
            for i in range(len(g)):
                for j in range(i + 1, len(g)):
                    if name == '*filter':
                        self.filter_pair(g[i], g[j])
                    elif name == '*sort':
                        self.sort_pair(g[i], g[j])
                    else:
                        self.op_pair(g[i], g[j])
                    if len(self.out) > self.limit:
                        return

    def pairkey(self, p, q):
        return (id(p[0]), tuple(a.get_id() for a in p[1]), id(q[0]), tuple(a.get_id() for a in q[1]))

    def sum_pair(self, p, q):
        key = self.pairkey(p, q)
        if key in self.pairs:
            return
        self.pairs[key] = True
        (d1, a1), (d2, a2) = p, q
        (x1,), _ = d1.at(a1)
        (x2,), _ = d2.at(a2)
        S1, S2 = self.term(d1, 'S', a1), self.term(d2, 'S', a2)
        if S1.sort() != S2.sort():
            return
        val = (lambda x: real(x)) if S1.is_real() else (lambda x: integer(x))
        n1, n2 = x1[0], x2[0]
        df = z3.simplify(n1 - n2)
        d = z3.Int(f'sd!{len(self.pairs)}')
        e = z3.Int(f'se!{len(self.pairs)}')
        self.flag(d, e)
        b1 = lambda t: val(self.at(x1[2], x1[1], [t]))
        b2 = lambda t: val(self.at(x2[2], x2[1], [t]))
        if z3.is_int_value(df) and df.as_long() != 0:
            m = df.as_long()
            if abs(m) == 1:
                (Sb, nb, bb), (Ss, ns, bs) = ((S1, n1, b1), (S2, n2, b2)) if m == 1 else ((S2, n2, b2), (S1, n1, b1))
                self.add(z3.Implies(ns >= 0, z3.Or(Sb == Ss + bb(ns), z3.And(d >= 0, d < ns, bb(d) != bs(d)))))
            return
        eqn = n1 == n2
        self.add(z3.Implies(z3.And(eqn, S1 < S2), z3.And(d >= 0, d < n1, b1(d) < b2(d))))
        self.add(z3.Implies(z3.And(eqn, S1 > S2), z3.And(e >= 0, e < n1, b1(e) > b2(e))))

    def op_pair(self, p, q):
        key = self.pairkey(p, q)
        got = self.pairs.get(key)
        if got is None:
            got = self.pairs[key] = len(self.pairs)
        (d1, a1), (d2, a2) = p, q
        r1, s1 = d1.at(a1)
        r2, s2 = d2.at(a2)
        if len(r1) != len(r2) or len(s1) != len(s2):
            return
        pre = []
        for x, y in zip(s1, s2):
            if x.sort() != y.sort():
                return
            c = z3.simplify(x == y)
            if z3.is_false(c):
                return
            pre.append(c)
        alt = []
        for m, (x, y) in enumerate(zip(r1, r2)):
            if len(x[1]) != len(y[1]):
                return
            pre.append(x[0] == y[0])
            ds = [z3.Int(f'od!{got}!{m}!{i}') for i in range(len(x[1]))]
            self.flag(*ds)
            alt.append(z3.And(ds[0] >= 0, ds[0] < x[0], *[t >= 0 for t in ds[1:]], self.differ(x[2], x[1], y[2], y[1], ds)))
        for rn in d1.decls:
            f1, f2 = d1.decls[rn], d2.decls[rn]
            n1 = f1.name() if isinstance(f1, z3.FuncDeclRef) else f1.decl().name()
            n2 = f2.name() if isinstance(f2, z3.FuncDeclRef) else f2.decl().name()
            A1 = [a for a in self.apps.get(n1, {}).values() if all(x.eq(y) for x, y in zip(a.children(), a1))]
            A2 = [a for a in self.apps.get(n2, {}).values() if all(x.eq(y) for x, y in zip(a.children(), a2))]
            for u in A1:
                for v in A2:
                    i1, i2 = u.children()[len(a1):], v.children()[len(a2):]
                    if len(i1) != len(i2):
                        continue
                    ec = [z3.simplify(x == y) for x, y in zip(i1, i2)]
                    if any(z3.is_false(c) for c in ec):
                        continue
                    self.add(z3.Implies(z3.And(*pre, *ec), z3.Or(u == v, *alt)))

    def filter_pair(self, p, q):
        key = self.pairkey(p, q)
        got = self.pairs.get(key)
        if got is None:
            got = self.pairs[key] = len(self.pairs)
        (d1, a1), (d2, a2) = p, q
        (x1,), _ = d1.at(a1)
        (x2,), _ = d2.at(a2)
        d = z3.Int(f'fd!{got}')
        self.flag(d)
        eqn = z3.simplify(x1[0] == x2[0])
        if z3.is_false(eqn):
            return
        bad = z3.And(d >= 0, d < x1[0], boolean(self.at(x1[2], x1[1], [d])) != boolean(self.at(x2[2], x2[1], [d])))
        l1, l2 = self.term(d1, 'len', a1), self.term(d2, 'len', a2)
        self.add(z3.Implies(eqn, z3.Or(bad, l1 == l2)))
        idx = {}
        for dd, aa in (p, q):
            for a in list(self.apps.get(dd.decls['sel'].name(), {}).values()):
                if all(x.eq(y) for x, y in zip(a.children(), aa)):
                    idx[a.children()[-1].get_id()] = a.children()[-1]
        for i in idx.values():
            self.add(z3.Implies(eqn, z3.Or(bad, self.term(d1, 'sel', a1, i) == self.term(d2, 'sel', a2, i))))

    def sort_pair(self, p, q):
        key = self.pairkey(p, q)
        got = self.pairs.get(key)
        if got is None:
            got = self.pairs[key] = len(self.pairs)
        (d1, a1), (d2, a2) = p, q
        (x1,), _ = d1.at(a1)
        (x2,), _ = d2.at(a2)
        d = z3.Int(f'pd!{got}')
        self.flag(d)
        eqn = z3.simplify(x1[0] == x2[0])
        if z3.is_false(eqn):
            return
        bad = z3.And(d >= 0, d < x1[0], self.differ(x1[2], x1[1], x2[2], x2[1], [d]))
        idx = {}
        for dd, aa in (p, q):
            for a in list(self.apps.get(dd.decls['perm'].name(), {}).values()):
                if all(x.eq(y) for x, y in zip(a.children(), aa)):
                    idx[a.children()[-1].get_id()] = a.children()[-1]
        for i in idx.values():
            self.add(z3.Implies(eqn, z3.Or(bad, self.term(d1, 'perm', a1, i) == self.term(d2, 'perm', a2, i))))

    def uf_axioms(self):
        ap = lambda nm: list(self.apps.get(nm, {}).values())
        for a in ap('fn_sqrt'):
            x = a.arg(0)
            self.add(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
        for a in ap('cabs'):
            re, im = a.children()
            self.add(z3.And(a >= 0, a * a == re * re + im * im))
            self.add((a == 0) == z3.And(re == 0, im == 0))
        cs = {x.arg(0).get_id(): x for x in ap('fn_cos')}
        for s in ap('fn_sin'):
            c = cs.get(s.arg(0).get_id())
            if c is not None:
                self.add(c * c + s * s == 1)
        for nm in ('fn_cos', 'fn_sin'):
            for a in ap(nm):
                self.add(z3.And(a <= 1, a >= -1))
                x = z3.simplify(a.arg(0))
                if z3.is_rational_value(x) and x.numerator_as_long() == 0:
                    self.add(a == (1 if nm == 'fn_cos' else 0))
        for a in ap('fn_exp'):
            self.add(a > 0)
        fs = ap('fn_f32')
        for a in fs:
            x = a.arg(0)
            self.add(z3.simplify(a.decl()(a)) == a)
        lg = ap('fn_log10')
        for i in range(len(lg)):
            for j in range(len(lg)):
                if i != j:
                    x, y = lg[i].arg(0), lg[j].arg(0)
                    self.add(z3.Implies(z3.And(x > 0, x < y), lg[i] < lg[j]))


def instantiate(E, formulas, rounds=3, limit=6000, budget=20.0):
    ins = Instantiator(E, limit)
    ins.scan(*formulas)
    t0 = time.time()
    for r in range(rounds):
        if ins.round() == 0:
            break
        if len(ins.out) > limit or time.time() - t0 > budget:
            break
        yield ins
    yield ins


NLM = z3.Function('nl*', z3.RealSort(), z3.RealSort(), z3.RealSort())
NLD = z3.Function('nl/', z3.RealSort(), z3.RealSort(), z3.RealSort())
NIM = z3.Function('nli*', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Abstractor:
    """Nonlinear products and quotients as (commutative) uninterpreted
    functions: a weaker theory, so a refutation carries over."""

    def __init__(self):
        self.cache = {}
        self.facts = []
        self.keep = []
        self.seen = set()
        self.used = False

    def mul(self, a, b):
        if z3.is_rational_value(a) or z3.is_rational_value(b) or z3.is_int_value(a) or z3.is_int_value(b):
            return a * b
        self.used = True
        if a.get_id() > b.get_id():
            a, b = b, a
        f = NLM if a.is_real() else NIM
        t = f(a, b)
        if t.get_id() in self.seen:
            return t
        self.seen.add(t.get_id())
        self.keep.append(t)
        self.facts.append(t == f(b, a))
        self.facts.append(z3.And(z3.Implies(z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), t > 0),
                                 z3.Implies(z3.Or(z3.And(a > 0, b < 0), z3.And(a < 0, b > 0)), t < 0),
                                 (t == 0) == z3.Or(a == 0, b == 0)))
        return t

    def quot(self, a, b):
        self.used = True
        t = NLD(a, b)
        if t.get_id() in self.seen:
            return t
        self.seen.add(t.get_id())
        self.keep.append(t)
        self.facts.append(z3.And(z3.Implies(z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), t > 0),
                                 z3.Implies(z3.Or(z3.And(a > 0, b < 0), z3.And(a < 0, b > 0)), t < 0),
                                 z3.Implies(z3.And(a == 0, b != 0), t == 0)))
        return t

    def __call__(self, e):
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in self.cache:
                stack.pop()
                continue
            ch = x.children()
            pend = [c for c in ch if c.get_id() not in self.cache]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            self.keep.append(x)
            new = [self.cache[c.get_id()] for c in ch]
            if z3.is_mul(x):
                k = None
                fs = []
                for c in new:
                    if z3.is_rational_value(c) or z3.is_int_value(c):
                        k = c if k is None else k * c
                    else:
                        fs.append(c)
                fs.sort(key=lambda t: t.get_id())
                r = None
                for f in fs:
                    r = f if r is None else self.mul(r, f)
                r = k if r is None else (r if k is None else k * r)
            elif z3.is_app_of(x, z3.Z3_OP_DIV) and not z3.is_rational_value(new[1]):
                r = self.quot(new[0], new[1])
            elif new and any(not a.eq(b) for a, b in zip(new, ch)):
                if z3.is_and(x):
                    r = z3.And(*new)
                elif z3.is_or(x):
                    r = z3.Or(*new)
                elif z3.is_add(x):
                    r = z3.Sum(*new) if len(new) > 1 else new[0]
                else:
                    r = x.decl()(*new)
            else:
                r = x
            self.cache[i] = r
            self.keep.append(r)
        return self.cache[e.get_id()]


def prove(E, hyps, goal, timeout=8000, rounds=4, want_model=True, quick=False, side=None, lean=False, few=None):
    """Prove hyps => goal.  hyps: list of z3 Bool; goal: z3 Bool."""
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result('proved', 'simplifier', time.time() - t0)
    base = [h for h in hyps if not z3.is_true(h)] + list(E.side if side is None else side) + [z3.Not(g)]
    ins = Instantiator(E)
    ins.until = t0 + 3 * timeout / 1000
    ins.few = few               # no more than so many terms for one bound variable
    ins.lean = lean             # only terms the goal and the facts mention already
    ins.scan(*base)
    last = None
    added = 0
    s = z3.Solver()
    ab = Abstractor()
    sa = z3.Solver()
    todo = list(base)
    for r in range(rounds + 1):
        if r and time.time() > ins.until:
            break
        todo += ins.out[added:]
        added = len(ins.out)
        s.add(*todo)
        sa.add(*[ab(f) for f in todo])
        sa.add(*ab.facts)
        ab.facts = []
        todo = []
        tries = [(sa, min(timeout, 3000))] if ab.used else []
        if ab.used and r in (0, 2):
            sa.set('timeout', int(min(timeout, 3000)))
            t1 = time.time()
            STATS['queries'] += 1
            if sa.check() == z3.unsat or poly_check(base, ins.out, min(timeout, 3000), signs=1.5 if r == 0 else 5.0):
                STATS['z3'] += time.time() - t1
                return Result('proved', 'z3', time.time() - t0, ninst=added)
            STATS['z3'] += time.time() - t1
            tries = []
        elif ab.used:
            sa.set('timeout', int(min(timeout, 3000)))
            t1 = time.time()
            STATS['queries'] += 1
            u = sa.check()
            STATS['z3'] += time.time() - t1
            if u == z3.unsat:
                return Result('proved', 'z3', time.time() - t0, ninst=added)
            tries = []
        if not ab.used or r >= 1:
            tries.append((s, timeout if r >= 2 or not ab.used else min(timeout, 1500)))
        for solver, tmo in tries:
            solver.set('timeout', int(tmo))
            STATS['queries'] += 1
            t1 = time.time()
            last = solver.check()
            STATS['z3'] += time.time() - t1
            if last == z3.unsat:
                return Result('proved', 'z3', time.time() - t0, ninst=added)
        if r == rounds or time.time() - t0 > 3 * timeout / 1000:
            break
        if ins.round() == 0:
            if ab.used and r < 1:
                s.set('timeout', int(timeout))
                last = s.check()
                if last == z3.unsat:
                    return Result('proved', 'z3', time.time() - t0, ninst=added)
            break
    model = None
    if last == z3.sat and want_model:
        model = s.model()
    # polynomial normal form
    if ab.used:
        t1 = time.time()
        ok = poly_check(base, ins.out, min(timeout, 4000))
        STATS['z3'] += time.time() - t1
        if ok:
            return Result('proved', 'z3', time.time() - t0, ninst=added)
    if quick:
        return Result('unknown', 'z3', time.time() - t0, None, added)
    # second back end
    t1 = time.time()
    try:
        st = cvc5_check(base + ins.out, timeout)
    except Exception:
        st = 'unknown'
    STATS['cvc5'] += time.time() - t1
    if st == 'unsat':
        return Result('proved', 'cvc5', time.time() - t0, ninst=added)
    return Result('sat' if last == z3.sat else 'unknown', 'z3', time.time() - t0, model, added)


# -- splitting a condition into smaller ones -----------------------------------
def leaves(E, ctx, goal, out, depth=0, limit=24):
    """ctx => goal follows from the conditions appended to out: what was learnt on the way, and the goal."""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return
    if len(out) >= limit or depth > 12:
        out.append((ctx, g))
        return
    go = lambda h, x: leaves(E, h, x, out, depth + 1, limit)
    if z3.is_and(g):
        for x in g.children():
            go(ctx, x)
        return
    if z3.is_not(g):
        x = g.arg(0)
        if z3.is_or(x):
            for y in x.children():
                go(ctx, z3.Not(y))
            return
        if z3.is_and(x):
            go(ctx, z3.Or(*[z3.Not(y) for y in x.children()]))
            return
    if z3.is_implies(g):
        go(ctx + [g.arg(0)], g.arg(1))
        return
    if z3.is_app_of(g, z3.Z3_OP_ITE):
        c, a, b = g.children()
        go(ctx + [c], a)
        go(ctx + [z3.Not(c)], b)
        return
    if z3.is_eq(g) and g.arg(0).sort() == z3.BoolSort():
        a, b = g.children()
        go(ctx + [a], b)
        go(ctx + [b], a)
        return
    if z3.is_or(g):
        cs = g.children()
        for i, x in enumerate(cs):
            if z3.is_and(x) or z3.is_app_of(x, z3.Z3_OP_ITE) or opens(E, x):
                go(ctx + [z3.Not(y) for j, y in enumerate(cs) if j != i], x)
                return
        if len(cs) > 1:
            # keep the last equation or inequality as the goal
            i = max(range(len(cs)), key=lambda j: (not z3.is_not(cs[j]), z3.is_eq(cs[j]), j))
            hs = [z3.Not(y) for j, y in enumerate(cs) if j != i]
            out.append((ctx + hs, cs[i]))
            return
    d = opens(E, g)
    if d is not None:
        df, args = d
        (x,), _ = df.at(args)
        n, vs, b = x
        ks = [E.index_var('g') for _ in vs]
        rng = [z3.And(k >= 0, k < n) for k in ks[:1]]
        body = subst(b, list(zip(vs, ks)))
        go(ctx + rng, boolean(body))
        return
    out.append((ctx, g))


def opens(E, g):
    """(definition, arguments) of a universally quantified goal"""
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        got = E.defs.get(g.decl().name())
        if got is not None and got[1] == 'Q' and got[0].kind == 'forall' and len(got[0].arrays[0][1]) == 1:
            return got[0], g.children()[:len(got[0].params)]
    return None


def symbols(E, e, memo):
    """Names of the uninterpreted functions e depends on, through definitions; constants are left out."""
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    memo[i] = (e, frozenset())
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        j = t.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                got = E.defs.get(nm)
                if got is not None:
                    if nm not in out:
                        out.add(nm)
                        for n, _, b in got[0].arrays:
                            todo.append(n)
                            todo += exprs_of(b)
                        todo += [x for x in got[0].scalars if z3.is_expr(x)]
                elif t.num_args() or t.sort() != z3.IntSort():
                    out.add(nm)
            todo += t.children()
    memo[i] = (e, frozenset(out))
    return memo[i][1]


def relevant(E, hyps, goal, steps, memo):
    """The hypotheses connected to the goals by at most that many shared symbols."""
    have = set().union(*[symbols(E, g, memo) for g in goal])
    ss = [symbols(E, h, memo) for h in hyps]
    keep = {i for i, x in enumerate(ss) if not x}
    for _ in range(steps):
        new = {i for i, x in enumerate(ss) if i not in keep and x & have}
        if not new:
            break
        keep |= new
        for i in new:
            have |= ss[i]
    return [h for i, h in enumerate(hyps) if i in keep]


def settled(facts):
    """(atom, its truth value) for the conditions the facts assert outright"""
    val, todo, late = {}, list(facts), []

    def truth(x):
        if z3.is_not(x):
            t = truth(x.arg(0))
            return None if t is None else not t
        if z3.is_true(x) or z3.is_false(x):
            return z3.is_true(x)
        if z3.is_and(x):
            ts = [truth(y) for y in x.children()]
            return False if False in ts else (True if all(t is True for t in ts) else None)
        if z3.is_or(x):
            ts = [truth(y) for y in x.children()]
            return True if True in ts else (False if all(t is False for t in ts) else None)
        got = val.get(x.get_id())
        return None if got is None else got[1]
    changed = True
    while changed:
        changed = False
        while todo:
            x = todo.pop()
            if z3.is_and(x):
                todo += x.children()
            elif z3.is_not(x) and z3.is_or(x.arg(0)):
                todo += [z3.Not(y) for y in x.arg(0).children()]
            elif z3.is_not(x) and z3.is_not(x.arg(0)):
                todo.append(x.arg(0).arg(0))
            elif z3.is_or(x) or (z3.is_not(x) and z3.is_and(x.arg(0))):
                late.append(x)
            else:
                t = True
                if z3.is_not(x):
                    x, t = x.arg(0), False
                if x.get_id() not in val and not z3.is_true(x) and not z3.is_false(x):
                    val[x.get_id()] = (x, t)
                    changed = True
        if changed:
            rest = []
            for x in late:
                cs = x.children() if z3.is_or(x) else [z3.Not(y) for y in x.arg(0).children()]
                open_ = [y for y in cs if truth(y) is not False]
                if any(truth(y) is True for y in cs):
                    continue
                if len(open_) == 1:
                    todo.append(open_[0])
                else:
                    rest.append(x)
            late = rest
    return list(val.values())


def same_sums(g):
    """Are the two sides of an equation between reals the same sum of monomials?"""
    if not (z3.is_eq(g) and g.arg(0).is_real() if z3.is_eq(g) and z3.is_arith(g.arg(0)) else False):
        return False
    N = core.normal()
    try:
        p, q = N.poly(g.arg(0)), N.poly(g.arg(1))
    except OverflowError:
        return False
    return p == q


def bare(ctx, g, timeout=1000):
    """Does the goal follow from what was learnt on the way alone, without any fact about the symbols in it?"""
    if same_sums(g):
        return True
    ab = Abstractor()
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*[ab(f) for f in ctx], ab(z3.Not(g)))
    s.add(*ab.facts)
    t0 = time.time()
    STATS['queries'] += 1
    r = s.check()
    STATS['z3'] += time.time() - t0
    return r == z3.unsat


def discharge(E, hyps, goal, timeout=8000, rounds=4, deadline=None):
    """Prove hyps => goal, as a whole or in parts."""
    t0 = time.time()
    end = deadline if deadline is not None else t0 + 1e9
    if z3.is_true(z3.simplify(goal)):
        return Result('proved', 'simplifier', time.time() - t0)
    parts = []
    hyps = [h for h in hyps if not z3.is_true(h)]
    leaves(E, [], goal, parts)
    allh = [z3.simplify(h) for h in hyps]
    side = list(E.side)
    memo, n, backend, bad = {}, 0, 'z3', None
    for ctx, g in parts:
        ctx = [z3.simplify(x) for x in ctx]
        facts = settled(allh + ctx + [z3.simplify(x) for x in side])
        known = [(x, z3.BoolVal(t)) for x, t in facts]
        g = z3.simplify(z3.substitute(g, *known)) if known else g
        known = implied([g], facts)
        g = z3.simplify(z3.substitute(g, *known)) if known else g
        if z3.is_true(g):
            continue
        if time.time() > end:
            bad = Result('unknown', 'z3', 0)
            break
        if bare(ctx, g):
            continue
        q = None
        for steps in (0, 1, 2, None):
            dead = steps == 0 and z3.is_false(g) and not ctx        # are the facts contradictory?
            if steps is None or dead:
                h2, s2 = allh, side
            else:
                h2 = relevant(E, allh, ctx + [g], steps or 2, memo)
                have = set().union(*[symbols(E, x, memo) for x in h2 + ctx + [g]])
                s2 = [x for x in side if symbols(E, x, memo) <= have]
                if steps and len(h2) + len(s2) == len(allh) + len(side):
                    continue
            left = max(1.0, end - time.time()) * 1000
            q = prove(E, h2 + ctx, g, timeout=min(timeout, left, 2500 if steps else timeout), rounds=rounds, quick=steps is not None, side=s2, lean=steps == 0 and not dead, few=12 if dead else None)
            n += q.ninst
            if q.status != 'proved' and dead and time.time() < end:
                q = prove(E, h2 + ctx, g, timeout=min(timeout, max(1.0, end - time.time()) * 1000), rounds=rounds, quick=True, side=s2, few=30)
                n += q.ninst
            if q.status == 'proved':
                break
        if q.status != 'proved':
            bad = q
            break
        if q.backend == 'cvc5':
            backend = 'cvc5'
    if bad is None:
        return Result('proved', backend, time.time() - t0, None, n)
    if len(parts) > 1 and bad.status != 'sat' and time.time() < end:
        r = prove(E, hyps, goal, timeout=min(timeout, max(1.0, end - time.time()) * 1000), rounds=rounds)
        r.seconds = time.time() - t0
        return r
    bad.seconds = time.time() - t0
    return bad


def poly_check(base, extra, timeout, signs=15.0):
    from .poly import PolyAbstractor, solve_equalities
    flat = []
    for f in list(base) + list(extra):
        st = [z3.simplify(f)]
        while st:
            x = st.pop()
            if z3.is_and(x):
                st.extend(reversed(x.children()))
            elif z3.is_not(x) and z3.is_or(x.arg(0)):
                st.extend(z3.Not(y) for y in reversed(x.arg(0).children()))
            else:
                flat.append(x)
    for fs in (solve_equalities(flat)[0], flat):
        pa = PolyAbstractor(fs)
        pa.budget = signs
        s = z3.Solver()
        s.set('timeout', int(timeout))
        out = [pa(f) for f in fs]
        s.add(*out)
        s.add(*pa.facts)
        STATS['queries'] += 1
        r = s.check()
        if r == z3.unsat:
            return True
    return False


def cvc5_check(formulas, timeout):
    s = z3.Solver()
    s.add(*formulas)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(timeout)}', '-'], input=txt, capture_output=True, text=True,
                       timeout=timeout / 1000 + 5)
    o = p.stdout.strip().splitlines()
    return o[0] if o else 'unknown'


# -- integer comparisons that follow from a single other one -----------------------
def _lin(e, k, out):
    if z3.is_int_value(e):
        out[None] = out.get(None, 0) + k * e.as_long()
        return
    d = e.decl().kind()
    if d == z3.Z3_OP_ADD:
        for c in e.children():
            _lin(c, k, out)
    elif d == z3.Z3_OP_SUB:
        for j, c in enumerate(e.children()):
            _lin(c, -k if j else k, out)
    elif d == z3.Z3_OP_UMINUS:
        _lin(e.arg(0), -k, out)
    elif d == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        _lin(e.arg(1), k * e.arg(0).as_long(), out)
    elif d == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
        _lin(e.arg(0), k * e.arg(1).as_long(), out)
    else:
        i = e.get_id()
        out[i] = out.get(i, 0) + k


def bound(x):
    """(linear form f, c) when the comparison x says f >= c; None if it is not one"""
    lt = z3.is_lt(x) or z3.is_gt(x)
    if not (lt or z3.is_le(x) or z3.is_ge(x)) or not x.arg(0).is_int():
        return None
    out = {}
    sg = 1 if z3.is_ge(x) or z3.is_gt(x) else -1
    _lin(x.arg(0), sg, out)
    _lin(x.arg(1), -sg, out)
    c = -out.pop(None, 0) + (1 if lt else 0)
    f = tuple(sorted((i, k) for i, k in out.items() if k))
    return (f, c) if f else None


def implied(exprs, facts):
    """(comparison in exprs, its truth value) for those that one of the facts [(atom, truth)] decides"""
    low = {}
    for x, t in facts:
        b = bound(x)
        if b is None:
            continue
        f, c = b
        if not t:
            f, c = tuple((i, -k) for i, k in f), 1 - c
        low[f] = max(c, low.get(f, c))
    if not low:
        return []
    out, seen, todo = [], set(), list(exprs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_bool(e) and e.num_args() == 2:
            b = bound(e)
            if b is not None:
                f, c = b
                if low.get(f, c - 1) >= c:
                    out.append((e, z3.BoolVal(True)))
                elif low.get(tuple((i, -k) for i, k in f), -c) > -c:
                    out.append((e, z3.BoolVal(False)))
        todo.extend(e.children())
    return out
