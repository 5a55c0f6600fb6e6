"""Algebraic normal forms of path expressions.

Every symbolic value is a rational expression over input variables and *defined* variables:
quotients q = a/b, square roots r = sqrt(N), cosines / sines.  The definitions are triangular
(each leading monomial is the square of one variable, or the variable itself), so they form a
Groebner basis and the normal form decides whether an equality follows from them.  The result
is only used to discharge equalities and to simplify what is handed to the SMT solver.
"""
from __future__ import annotations

import math
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


MAXT = 1500
ONE = ()


def p_const(c):
    return {ONE: c} if c else {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def p_key(p):
    return tuple(sorted(p.items()))


class Alg:
    def __init__(self):
        self.vars = {}  # z3 id -> var index
        self.vexpr = []  # var index -> z3 expr
        self.sq = {}  # var index -> (num, den) with var^2 = num/den ; den == polynomial without the var
        self.defs = {}  # z3 id -> RF
        self.memo = {}
        self.keep = []
        self.rad = {}  # radicand key -> var index
        self.nonneg = set()  # var indices known >= 0
        self.lin = {}  # var index -> poly (equalities fixed by the path condition)
        self.nonzero = set()  # var indices that were divided by
        self.bnd = {}  # var index -> (lo, hi) with None = unbounded
        self.known = {}  # z3 id of a decided condition -> bool
        self.ites = {}

    # -- variables
    def var(self, e):
        i = self.vars.get(e.get_id())
        if i is None:
            i = len(self.vexpr)
            self.vars[e.get_id()] = i
            self.vexpr.append(e)
            self.keep.append(e)
        return i

    # -- polynomials modulo v^2 -> poly
    def p_mul(self, a, b):
        if len(a) * len(b) > MAXT * 8:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return self.reduce(r)

    def reduce(self, p):
        if self.lin:
            p = self._subst(p)
        sq = self.sq
        todo = p
        n = 0
        while True:
            bad = None
            for m in todo:
                for (v, e) in m:
                    if e >= 2 and v in sq:
                        if bad is None or v > bad:
                            bad = v
            if bad is None:
                if len(todo) > MAXT:
                    raise TooBig()
                return todo
            rep = sq[bad]
            out = {}
            for m, c in todo.items():
                e = 0
                for (v, ee) in m:
                    if v == bad:
                        e = ee
                        break
                if e < 2:
                    v2 = out.get(m, 0) + c
                    if v2:
                        out[m] = v2
                    else:
                        out.pop(m, None)
                    continue
                rest = tuple((v, ee) for (v, ee) in m if v != bad)
                k, odd = divmod(e, 2)
                if odd:
                    rest = mono_mul(rest, ((bad, 1),))
                # expand rep^k * rest
                acc = {rest: c}
                for _ in range(k):
                    nxt = {}
                    for m1, c1 in acc.items():
                        for m2, c2 in rep.items():
                            mm = mono_mul(m1, m2)
                            v2 = nxt.get(mm, 0) + c1 * c2
                            if v2:
                                nxt[mm] = v2
                            else:
                                nxt.pop(mm, None)
                    acc = nxt
                for mm, cc in acc.items():
                    v2 = out.get(mm, 0) + cc
                    if v2:
                        out[mm] = v2
                    else:
                        out.pop(mm, None)
                if len(out) > 4 * MAXT:
                    raise TooBig()
            todo = self._subst(out) if self.lin else out
            n += 1
            if n > 400:
                raise TooBig()

    def _subst(self, p):
        lin = self.lin
        for _ in range(50):
            bad = None
            for m in p:
                for (v, e) in m:
                    if v in lin and (bad is None or v > bad):
                        bad = v
            if bad is None:
                return p
            rep = lin[bad]
            out = {}
            for m, c in p.items():
                e = 0
                for (v, ee) in m:
                    if v == bad:
                        e = ee
                        break
                if not e:
                    acc = {m: c}
                else:
                    acc = {tuple((v, ee) for (v, ee) in m if v != bad): c}
                    for _k in range(e):
                        nxt = {}
                        for m1, c1 in acc.items():
                            for m2, c2 in rep.items():
                                mm = mono_mul(m1, m2)
                                nxt[mm] = nxt.get(mm, 0) + c1 * c2
                        acc = {a: b for a, b in nxt.items() if b}
                for mm, cc in acc.items():
                    v2 = out.get(mm, 0) + cc
                    if v2:
                        out[mm] = v2
                    else:
                        out.pop(mm, None)
            if len(out) > 4 * MAXT:
                raise TooBig()
            p = out
        raise TooBig()

    def set_bound(self, v, lo=None, hi=None):
        l0, h0 = self.bnd.get(v, (None, None))
        if lo is not None:
            l0 = lo if l0 is None else max(l0, lo)
        if hi is not None:
            h0 = hi if h0 is None else min(h0, hi)
        self.bnd[v] = (l0, h0)
        if l0 is not None and l0 >= 0:
            self.nonneg.add(v)

    def interval(self, p):
        """(lo, hi) of a polynomial from the variable bounds (None = unbounded)."""
        lo, hi = Fraction(0), Fraction(0)
        for m, c in p.items():
            a, b = Fraction(1), Fraction(1)
            for v, e in m:
                l, h = self.bnd.get(v, (None, None))
                if v in self.nonneg and (l is None or l < 0):
                    l = Fraction(0)
                if e % 2 == 0:
                    mx = None if l is None or h is None else max(abs(l), abs(h)) ** e
                    mn = Fraction(0)
                    if l is not None and l > 0:
                        mn = l ** e
                    elif h is not None and h < 0:
                        mn = h ** e
                    l, h = mn, mx
                else:
                    l = None if l is None else l ** e
                    h = None if h is None else h ** e
                a, b = _imul(a, b, l, h)
                if a is None and b is None:
                    break
            if c < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def strip(self, num):
        """num == 0 with non-zero variables divided out of the monomial content."""
        cont = None
        for m in num:
            d = {v: e for v, e in m if v in self.nonzero}
            cont = d if cont is None else {v: min(e, d[v]) for v, e in cont.items() if v in d}
            if not cont:
                return num
        return {tuple((v, e - cont.get(v, 0)) for v, e in m if e > cont.get(v, 0)): c for m, c in num.items()}

    def learn(self, e):
        """Use a path-condition equality num == 0 (real term e == 0) as a substitution."""
        rf = self.nf(e)
        if rf is None or not rf[0] or len(rf[0]) > 4:
            return
        num = self.strip(rf[0])
        if len(num) == 1:
            (m, c), = num.items()
            if len(m) != 1:
                return
            v, rep = m[0][0], {}
        else:
            v = None
            for m, c in num.items():
                if len(m) == 1 and m[0][1] == 1:
                    w = m[0][0]
                    if all(w not in [x for x, _ in mm] for mm in num if mm != m) and (v is None or w > v):
                        v, cv, mv = w, c, m
            if v is None:
                return
            if any(x > v for m in num for x, _ in m):
                return
            rep = {m: -c / cv for m, c in num.items() if m != mv}
        if v in self.lin:
            return
        self._set_lin(v, rep)

    def _set_lin(self, v, rep):
        # the replacement must not depend on v through square definitions
        seen, stack = set(), [x for m in rep for x, _ in m]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            for d in (self.sq.get(x), self.lin.get(x)):
                if d:
                    stack += [y for m in d for y, _ in m]
        if v in seen:
            return
        self.lin[v] = rep
        self.memo = {}
        newd = {}
        for k, (n, d) in self.defs.items():
            try:
                n2 = self.reduce(n)
                d2 = {}
                ok = True
                for kk, (f, ee) in d.items():
                    f2 = self.reduce(f)
                    if not f2:
                        ok = False
                        break
                    c, key, g = self._factor(f2)
                    n2 = p_scale(n2, 1 / c ** ee)
                    if g != {ONE: Fraction(1)}:
                        old = d2.get(key, (g, 0))
                        d2[key] = (g, old[1] + ee)
                if ok:
                    newd[k] = self._norm(n2, d2)
            except TooBig:
                pass
        self.defs = newd
        if not rep and v in self.sq and sum_of_squares(self.sq[v]):
            # a vanishing norm: every component vanishes
            for m in list(self.sq[v]):
                if len(m) == 1:
                    self.learn(self.vexpr[m[0][0]])

    # -- rational functions: (num, ((factor_key, exp), ...) ) with factor store
    # den is a dict {key: (poly, exp)}
    def rf_const(self, c):
        return (p_const(Fraction(c)), {})

    def _norm(self, num, den):
        if not num:
            return ({}, {})
        d2 = {}
        for k, (f, e) in den.items():
            if e == 0:
                continue
            d2[k] = (f, e)
        # cancel exact factors
        for k in list(d2):
            f, e = d2[k]
            while e > 0:
                q = self.divide_exact(num, f)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                d2[k] = (f, e)
            else:
                del d2[k]
        return (num, d2)

    def divide_exact(self, num, f):
        """num / f if f is a single monomial or num is a constant multiple / exact multiple of f."""
        if len(f) == 1:
            (m, c), = f.items()
            out = {}
            md = dict(m)
            for mm, cc in num.items():
                d = dict(mm)
                for v, e in m:
                    if d.get(v, 0) < e:
                        return None
                    d[v] -= e
                    if not d[v]:
                        del d[v]
                out[tuple(sorted(d.items()))] = cc / c
            return out
        if len(num) > 400 or len(f) > 60 or len(num) < len(f):
            if len(num) != len(f):
                return None
        # multivariate long division with lex order on monomials (as sorted tuples by (var, exp) high first)
        def lead(p):
            return max(p, key=_lexkey)

        lf = lead(f)
        cf = f[lf]
        rem = dict(num)
        out = {}
        steps = 0
        while rem:
            steps += 1
            if steps > 400:
                return None
            lm = lead(rem)
            d = dict(lm)
            for v, e in lf:
                if d.get(v, 0) < e:
                    return None
                d[v] -= e
                if not d[v]:
                    del d[v]
            qm = tuple(sorted(d.items()))
            qc = rem[lm] / cf
            out[qm] = out.get(qm, 0) + qc
            for m2, c2 in f.items():
                mm = mono_mul(qm, m2)
                v2 = rem.get(mm, 0) - qc * c2
                if v2:
                    rem[mm] = v2
                else:
                    rem.pop(mm, None)
        return out

    def _factor(self, f):
        """normalise a factor: returns (const, key, poly)"""
        lm = max(f, key=_lexkey)
        c = f[lm]
        g = {m: v / c for m, v in f.items()}
        return c, p_key(g), g

    def expand_den(self, den, over):
        """product of factors in `over` minus those in den"""
        r = {ONE: Fraction(1)}
        for k, (f, e) in over.items():
            have = den[k][1] if k in den else 0
            for _ in range(e - have):
                r = self.p_mul(r, f)
        return r

    def rf_add(self, a, b, k=1):
        if not a[0]:
            return (p_scale(b[0], k), b[1])
        if not b[0]:
            return a
        if a[1].keys() == b[1].keys() and all(a[1][x][1] == b[1][x][1] for x in a[1]):
            return self._norm(p_add(a[0], b[0], k), a[1])
        over = dict(a[1])
        for key, (f, e) in b[1].items():
            if key in over:
                over[key] = (f, max(e, over[key][1]))
            else:
                over[key] = (f, e)
        na = self.p_mul(a[0], self.expand_den(a[1], over))
        nb = self.p_mul(b[0], self.expand_den(b[1], over))
        return self._norm(p_add(na, nb, k), over)

    def rf_mul(self, a, b):
        if not a[0] or not b[0]:
            return ({}, {})
        den = dict(a[1])
        for key, (f, e) in b[1].items():
            if key in den:
                den[key] = (f, e + den[key][1])
            else:
                den[key] = (f, e)
        return self._norm(self.p_mul(a[0], b[0]), den)

    def rf_inv(self, b):
        num, den = b
        if not num:
            raise ZeroDivisionError
        top = {ONE: Fraction(1)}
        for k, (f, e) in den.items():
            for _ in range(e):
                top = self.p_mul(top, f)
        # split monomial content off
        content = None
        for m in num:
            d = dict(m)
            if content is None:
                content = d
            else:
                content = {v: min(e, d.get(v, 0)) for v, e in content.items() if d.get(v, 0)}
        rest = num
        newden = {}
        if content:
            cm = tuple(sorted(content.items()))
            rest = self.divide_exact(num, {cm: Fraction(1)})
            for v, e in cm:
                self.nonzero.add(v)
                for _ in range(e):
                    if v in self.sq:
                        # 1/v = v / v^2
                        top = self.p_mul(top, {((v, 1),): Fraction(1)})
                        c, key, g = self._factor(self.sq[v])
                        top = p_scale(top, 1 / c)
                        if g != {ONE: Fraction(1)}:
                            old = newden.get(key, (g, 0))
                            newden[key] = (g, old[1] + 1)
                    else:
                        g = {((v, 1),): Fraction(1)}
                        key = p_key(g)
                        old = newden.get(key, (g, 0))
                        newden[key] = (g, old[1] + 1)
        c, key, g = self._factor(rest)
        top = p_scale(top, 1 / c)
        if g != {ONE: Fraction(1)}:
            # rationalise a + b*r (single square-root variable, small)
            old = newden.get(key, (g, 0))
            newden[key] = (g, old[1] + 1)
        return self._norm(top, newden)

    # -- z3 -> RF
    def nf(self, e):
        """RF or None."""
        try:
            return self._nf(e)
        except (TooBig, ZeroDivisionError, RecursionError):
            return None

    def _nf(self, e):
        k = e.get_id()
        if k in self.memo:
            r = self.memo[k]
            if r is None:
                raise TooBig()
            return r
        try:
            r = self._nf0(e)
        except TooBig:
            self.memo[k] = None
            self.keep.append(e)
            raise
        self.memo[k] = r
        self.keep.append(e)
        return r

    def _nf0(self, e):
        if z3.is_rational_value(e):
            return self.rf_const(e.as_fraction())
        if z3.is_int_value(e):
            return self.rf_const(e.as_long())
        if z3.is_app(e):
            d = e.decl().kind()
            if d == z3.Z3_OP_ADD:
                r = self._nf(e.arg(0))
                for i in range(1, e.num_args()):
                    r = self.rf_add(r, self._nf(e.arg(i)))
                return r
            if d == z3.Z3_OP_MUL:
                r = self._nf(e.arg(0))
                for i in range(1, e.num_args()):
                    r = self.rf_mul(r, self._nf(e.arg(i)))
                return r
            if d == z3.Z3_OP_SUB:
                r = self._nf(e.arg(0))
                for i in range(1, e.num_args()):
                    r = self.rf_add(r, self._nf(e.arg(i)), -1)
                return r
            if d == z3.Z3_OP_UMINUS:
                r = self._nf(e.arg(0))
                return (p_scale(r[0], Fraction(-1)), r[1])
            if d == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
                f = e.arg(1).as_fraction()
                if f.denominator == 1 and 0 <= f.numerator <= 8:
                    b = self._nf(e.arg(0))
                    r = self.rf_const(1)
                    for _ in range(f.numerator):
                        r = self.rf_mul(r, b)
                    return r
        k = e.get_id()
        if k in self.defs:
            return self.defs[k]
        v = self.var(e)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c, neg = e.arg(0), False
            while z3.is_not(c):
                c, neg = c.arg(0), not neg
            if c.get_id() in self.known:
                return self._nf(e.arg(1) if self.known[c.get_id()] != neg else e.arg(2))
            self.ites.setdefault(c.get_id(), []).append((v, neg, e))
        return ({((v, 1),): Fraction(1)}, {})

    def resolve_ite(self, c, val):
        """the path decided condition c: If-terms over it become one of their arms."""
        self.known[c.get_id()] = val
        self.keep.append(c)
        for v, neg, e in self.ites.pop(c.get_id(), []):
            if v in self.lin:
                continue
            rf = self.nf(e.arg(1) if val != neg else e.arg(2))
            if rf is not None and not rf[1] and len(rf[0]) <= 200:
                self._set_lin(v, rf[0])

    # -- definitions
    def define_quot(self, q, a, b):
        ra, rb = self.nf(a), self.nf(b)
        if ra is None or rb is None or not rb[0]:
            return
        try:
            self.defs[q.get_id()] = self.rf_mul(ra, self.rf_inv(rb))
            self.keep.append(q)
        except (TooBig, ZeroDivisionError):
            pass

    def define_sq(self, v, poly):
        """v*v = poly (poly over earlier variables, without v)."""
        i = self.var(v)
        if any(w == i for m in poly for (w, _) in m):
            return
        self.sq[i] = poly
        self.rad.setdefault(p_key(poly), i)
        self.memo = {k: r for k, r in self.memo.items() if r is None or not self._uses(r, i)}

    def _uses(self, r, i):
        for m in r[0]:
            for (w, e) in m:
                if w == i and e > 1:
                    return True
        for k, (f, e) in r[1].items():
            for m in f:
                for (w, ee) in m:
                    if w == i:
                        return True
        return False

    # -- RF -> z3
    def const(self, rf):
        if rf is None:
            return None
        num, den = rf
        if not num:
            return Fraction(0)
        if not den and len(num) == 1 and ONE in num:
            return num[ONE]
        return None

    def p_expr(self, p):
        terms = []
        for m, c in sorted(p.items(), key=lambda t: t[0]):
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(c))
            for v, e in m:
                fs.extend([self.vexpr[v]] * e)
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def is_zero(self, e):
        rf = self.nf(e)
        return rf is not None and not rf[0]

    def small(self, rf, limit=10):
        return rf is not None and not rf[1] and len(rf[0]) <= limit


def _imul(a, b, l, h):
    """[a,b]*[l,h], None = infinite bound."""
    inf = float("inf")
    A = [-inf if a is None else a, inf if b is None else b]
    B = [-inf if l is None else l, inf if h is None else h]
    vals = []
    for x in A:
        for y in B:
            if x == 0 or y == 0:
                vals.append(Fraction(0))
            elif isinstance(x, float) or isinstance(y, float):
                vals.append(inf if (x > 0) == (y > 0) else -inf)
            else:
                vals.append(x * y)
    lo, hi = min(vals), max(vals)
    return (None if lo == -inf else lo), (None if hi == inf else hi)


def _lexkey(m):
    return tuple((-v, e) for v, e in m)


def sum_of_squares(p):
    """all coefficients positive, all exponents even"""
    return all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in p.items())
