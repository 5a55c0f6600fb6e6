"""Symbolic execution core: symbolic reals / booleans over z3, path exploration, trig.

Floats are interpreted as mathematical reals (stated bound of every claim made with
this engine).  Everything here is generic; nothing refers to /repo.
"""
from __future__ import annotations

import math
import time
import builtins
from fractions import Fraction

import z3

from . import alg as _alg

PI = math.pi
real_isinstance = builtins.isinstance


class Unsupported(Exception):
    """The engine cannot encode this operation (never a property violation)."""


class PathAbort(BaseException):
    """Current path is infeasible / assumed away / over budget."""


class NonFinite(ArithmeticError):
    """A division by zero / domain error: nan or inf in the float code."""


# --------------------------------------------------------------------------- values
def _frac(x) -> Fraction:
    if real_isinstance(x, Fraction):
        return x
    if real_isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported("non finite constant in symbolic arithmetic")
    r = repr(x)
    if len(r) <= 9 or "e" in r and len(r) <= 12:
        return Fraction(r)
    return Fraction(x)


_rv_cache: dict = {}


def rv(x):
    f = _frac(x)
    v = _rv_cache.get(f)
    if v is None:
        v = z3.RealVal(f)
        _rv_cache[f] = v
    return v


def is_num(x):
    return real_isinstance(x, (int, float, Fraction)) or (
        hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 and x.dtype.kind in "fiub"
    )


def to_e(x):
    """z3 real expression of a value."""
    if real_isinstance(x, S):
        return x.e
    if real_isinstance(x, SB):
        return z3.If(x.e, rv(1), rv(0))
    if real_isinstance(x, SI):
        return z3.ToReal(x.e)
    if is_num(x):
        return rv(x if real_isinstance(x, (int, float, Fraction)) else x.item())
    raise Unsupported(f"cannot convert {type(x)} to a symbolic real")


def mk(e):
    """Wrap a z3 real expression, folding constants."""
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return float(f)
    return S(e)


def is_sym(x):
    return real_isinstance(x, (S, SB, SI))


class SB:
    """Symbolic boolean."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        return mkb(z3.And(self.e, to_b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.e, to_b(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def __xor__(self, o):
        return mkb(z3.Xor(self.e, to_b(o)))

    __rxor__ = __xor__

    def logical_not(self):
        return ~self

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def _num(self):
        return S(z3.If(self.e, rv(1), rv(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __eq__(self, o):
        if real_isinstance(o, (SB, bool)):
            return mkb(self.e == to_b(o))
        return self._num() == o

    def __ne__(self, o):
        r = self == o
        return (not r) if real_isinstance(r, bool) else ~r

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def __hash__(self):
        return id(self)

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return f"SB({self.e})"


def to_b(x):
    if real_isinstance(x, SB):
        return x.e
    if real_isinstance(x, (bool,)):
        return z3.BoolVal(x)
    if real_isinstance(x, (S, SI)):
        return x.e != 0
    return z3.BoolVal(bool(x))


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SB(e)


def _cmp(op):
    def f(self, o):
        if o is None:
            return NotImplemented
        if real_isinstance(o, (float, int)) or is_num(o):
            of = float(o)
            if of != of:
                return op == "ne"
            if of in (math.inf, -math.inf):
                if op in ("lt", "le", "ne"):
                    return of > 0 or op == "ne"
                if op in ("gt", "ge"):
                    return of < 0
                return False
        elif not is_sym(o):
            return NotImplemented
        a, b = self.e, to_e(o)
        if a.eq(b):
            return op in ("le", "ge", "eq")
        e = {
            "lt": lambda: a < b,
            "le": lambda: a <= b,
            "gt": lambda: a > b,
            "ge": lambda: a >= b,
            "eq": lambda: a == b,
            "ne": lambda: a != b,
        }[op]()
        return mkb(e)

    return f


class S:
    """Symbolic real scalar standing for a float."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    # numpy scalar-like attributes
    ndim = 0
    shape = ()
    size = 1

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, *_a, **_k):
        return self

    def __hash__(self):
        return self.e.hash()

    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __add__(self, o):
        if is_num(o):
            if o == 0:
                return self
        elif not is_sym(o):
            return NotImplemented
        return mk(self.e + to_e(o))

    __radd__ = __add__

    def __sub__(self, o):
        if is_num(o):
            if o == 0:
                return self
        elif not is_sym(o):
            return NotImplemented
        oe = to_e(o)
        if oe.eq(self.e):
            return 0.0
        return mk(self.e - oe)

    def __rsub__(self, o):
        if is_num(o):
            if o == 0:
                return -self
            return mk(to_e(o) - self.e)
        if is_sym(o):
            return mk(to_e(o) - self.e)
        return NotImplemented

    def __mul__(self, o):
        if is_num(o):
            if o == 0:
                return 0.0
            if o == 1:
                return self
            if o == -1:
                return -self
        elif not is_sym(o):
            return NotImplemented
        return mk(self.e * to_e(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_num(o):
            if o == 0:
                raise NonFinite("division by zero")
            if o == 1:
                return self
            return mk(self.e * rv(1 / _frac(o if real_isinstance(o, (int, float, Fraction)) else o.item())))
        if not is_sym(o):
            return NotImplemented
        return cur().divide(self.e, to_e(o))

    def __rtruediv__(self, o):
        if is_num(o) or is_sym(o):
            return cur().divide(to_e(o), self.e)
        return NotImplemented

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        sg = cur().known_sign(self.e) if _CUR is not None else None
        if sg is not None:
            return self if sg else -self
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, p):
        if not (is_num(p) or is_sym(p)):
            return NotImplemented
        return spow(self, p)

    def __rpow__(self, b):
        return spow(b, self)

    def __mod__(self, m):
        return cur().mod(self, m)

    def __floordiv__(self, m):
        k = cur().fresh_int("fdiv")
        q = self / m
        cur().add(z3.And(z3.ToReal(k) <= to_e(q), to_e(q) < z3.ToReal(k) + 1))
        return SI(k)

    def __divmod__(self, m):
        return (self // m, self % m)

    def __round__(self, n=None):
        """a closest integer (of two, either)"""
        scale = 10 ** (n or 0)
        k = cur().fresh_int("round")
        x = to_e(self * scale)
        cur().add(z3.And(x - z3.RealVal("1/2") <= z3.ToReal(k), z3.ToReal(k) <= x + z3.RealVal("1/2")))
        return SI(k) if n is None else S(z3.ToReal(k)) / scale

    def __int__(self):
        return cur().split_int_trunc(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic real reached a C boundary")

    def __index__(self):
        raise TypeError("S is not an index")

    # methods numpy calls on object arrays
    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def cos(self):
        return scos(self)

    def sin(self):
        return ssin(self)

    def tan(self):
        return stan(self)

    def arccos(self):
        return sacos(self)

    def arcsin(self):
        return sasin(self)

    def arctan(self):
        return satan2(self, 1.0)

    def arctan2(self, x):
        return satan2(self, x)

    def conjugate(self):
        return self

    def fabs(self):
        return abs(self)

    def __repr__(self):
        s = str(self.e)
        return f"S({s if len(s) < 80 else s[:77] + '...'})"


class SI:
    """Symbolic integer; turned into a concrete value by path splitting when indexed."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _b(self, o):
        if real_isinstance(o, SI):
            return o.e
        if real_isinstance(o, bool) or real_isinstance(o, int):
            return z3.IntVal(int(o))
        if hasattr(o, "dtype") and o.dtype.kind in "iu":
            return z3.IntVal(int(o))
        return None

    def _w(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return SI(e)

    def _ar(self, o, f):
        b = self._b(o)
        if b is None:
            if is_num(o) or real_isinstance(o, S):
                return f(S(z3.ToReal(self.e)), o)
            return NotImplemented
        return self._w(f(self.e, b))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return self._w(-self.e)

    def __truediv__(self, o):
        return S(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / S(z3.ToReal(self.e))

    def __mod__(self, o):
        b = self._b(o)
        if b is None:
            return S(z3.ToReal(self.e)) % o
        return self._w(self.e % b)

    def _c(self, o, f):
        b = self._b(o)
        if b is None:
            if is_num(o) or real_isinstance(o, S):
                r = f(z3.ToReal(self.e), to_e(o))
                return mkb(r)
            return NotImplemented
        return mkb(f(self.e, b))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None:
            return False
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None:
            return True
        return self._c(o, lambda a, b: a != b)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        return cur().split_int(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return f"SI({self.e})"


# ------------------------------------------------------------------ math on scalars
def ssqrt(x):
    if not is_sym(x):
        x = float(x)
        if x < 0:
            raise NonFinite("sqrt of negative")
        return math.sqrt(x)
    return cur().sqrt(to_e(x))


def sexp(x):
    if not is_sym(x):
        return math.exp(x)
    return cur().expf(x)


def slog(x):
    if not is_sym(x):
        if x <= 0:
            raise NonFinite("log of non positive")
        return math.log(x)
    return cur().logf(x)


def _snap_trig(v):
    return 0.0 if abs(v) < 2e-15 else (math.copysign(1.0, v) if abs(abs(v) - 1) < 1e-15 else v)


def scos(x):
    if not is_sym(x):
        return _snap_trig(math.cos(x))
    return cur().cossin(x)[0]


def ssin(x):
    if not is_sym(x):
        return _snap_trig(math.sin(x))
    return cur().cossin(x)[1]


def stan(x):
    c, s = scos(x), ssin(x)
    return s / c


def sacos(x):
    if not is_sym(x):
        x = float(x)
        if abs(x) > 1:
            if abs(x) < 1 + 1e-12:
                x = math.copysign(1.0, x)
            else:
                raise NonFinite("arccos domain")
        return math.acos(x)
    return cur().acos(to_e(x))


def sasin(x):
    if not is_sym(x):
        if abs(x) > 1:
            raise NonFinite("arcsin domain")
        return math.asin(x)
    return cur().asin(to_e(x))


def satan2(y, x):
    if not is_sym(x) and not is_sym(y):
        return math.atan2(y, x)
    return cur().atan2(to_e(y), to_e(x))


def spow(b, p):
    if not is_sym(b) and not is_sym(p):
        return float(b) ** float(p)
    if not is_sym(p):
        pf = _frac(p if real_isinstance(p, (int, float, Fraction)) else p.item())
        if pf.denominator == 1:
            n = pf.numerator
            if n == 0:
                return 1.0
            if abs(n) <= 12:
                r = b
                for _ in range(abs(n) - 1):
                    r = r * b
                return r if n > 0 else 1.0 / r
        elif pf == Fraction(1, 2):
            return ssqrt(b)
        elif pf == Fraction(-1, 2):
            return 1.0 / ssqrt(b)
    return cur().powf(b, p)


# --------------------------------------------------------------------------- engine
_CUR = None


def cur() -> "Path":
    if _CUR is None:
        raise Unsupported("symbolic operation outside a path")
    return _CUR


def set_cur(p):
    global _CUR
    _CUR = p


def check_constraints(cons, timeout_ms, tactic=None):
    """One-shot satisfiability check."""
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set("timeout", int(timeout_ms))
    for c in cons:
        s.add(c)
    r = s.check()
    return r, s


class Path:
    """One symbolic execution of a harness along a decision prefix."""

    def __init__(self, prefix, opts):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []  # list of (chosen, alternatives_left)
        self.cons = []
        self.inputs = {}  # name -> z3 const
        self.n = 0
        self.opts = opts
        self.sq_cache = {}
        self.div_cache = {}
        self.trig = {}  # key id -> (v, c, s, expr)
        self.trig_order = []
        self.acos_cache = {}
        self.exp_terms = []
        self.log_terms = []
        self.pow_terms = []
        self.nonneg = set()
        self.stats = opts.stats
        self.labels = []
        self.keep = []
        self.alg = _alg.Alg()
        self.quot = {}
        self.const_cs = {}
        self.decided = {}

    # ---- basics
    def add(self, c):
        if z3.is_true(c):
            return
        self.cons.append(c)
        self._raw_bound(c)

    def _raw_bound(self, c):
        if not z3.is_app(c):
            return
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            for d in c.children():
                self._raw_bound(d)
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = c.arg(0), c.arg(1)
            if z3.is_rational_value(b) and a.num_args() == 0 and z3.is_real(a) and not z3.is_rational_value(a):
                v = self.alg.var(a)
                if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                    self.alg.set_bound(v, hi=b.as_fraction())
                else:
                    self.alg.set_bound(v, lo=b.as_fraction())

    def fresh(self, tag):
        self.n += 1
        return z3.Real(f"{tag}!{self.n}")

    def fresh_int(self, tag):
        self.n += 1
        return z3.Int(f"{tag}!{self.n}")

    def feasible(self, extra, timeout=None):
        t0 = time.time()
        timeout = timeout or self.opts.branch_timeout
        cons = self.cons + [extra]
        r, _ = check_constraints(cons, timeout * 0.4)
        if r == z3.unknown:
            try:
                r, _ = check_constraints(cons, timeout * 0.6, "qfnra-nlsat")
            except z3.Z3Exception:
                r = z3.unknown
        self.stats["branch_queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        return r

    def _decide(self, n_opts, guards):
        """Choose among alternatives; guards[i] is the constraint of alternative i."""
        if self.pos < len(self.prefix):
            ch, left = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((ch, list(left)))
            self.add(guards[ch])
            return ch
        if time.time() > self.opts.deadline:
            self.opts.truncated = True
            raise PathAbort("deadline")
        feas = []
        for i, g in enumerate(guards):
            if i == len(guards) - 1 and not feas:
                feas.append(i)  # path itself is feasible: last one must be
                break
            r = self.feasible(g)
            if r != z3.unsat:
                feas.append(i)
        if len(self.trace) >= self.opts.max_depth:
            self.opts.truncated = True
            raise PathAbort("depth")
        ch, left = feas[0], feas[1:]
        self.pos += 1
        self.trace.append((ch, left))
        self.prefix.append((ch, left))
        self.add(guards[ch])
        return ch

    def branch(self, e):
        e = self.red_bool(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        base, neg = e, False
        while z3.is_not(base):
            base, neg = base.arg(0), not neg
        if base.get_id() in self.decided:
            return self.decided[base.get_id()] != neg
        ch = self._decide(2, [e, z3.Not(e)])
        self.decided[base.get_id()] = (ch == 0) != neg
        self.keep.append(base)
        self.alg.resolve_ite(base, (ch == 0) != neg)
        self.learn(e if ch == 0 else z3.Not(e))
        return ch == 0

    def known_sign(self, e):
        """True: e >= 0 known, False: e <= 0 known (from cheap syntactic facts), None: unknown."""
        c = z3.simplify(e >= 0)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = False
        while z3.is_not(c):
            c, neg = c.arg(0), not neg
        d = self.decided.get(c.get_id())
        if d is not None:
            return d != neg
        rf = self.alg.nf(e)
        if rf is None or len(rf[0]) > 12:
            return None
        if all(n % 2 == 0 or self._p_nonneg(f) for f, n in rf[1].values()):
            lo, hi = self.alg.interval(rf[0])
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi <= 0:
                return False
        if self._rf_nonneg(rf):
            return True
        if self._rf_nonneg(({m: -k for m, k in rf[0].items()}, rf[1])):
            return False
        return None

    def learn(self, e):
        """Equalities of the path condition become substitutions of the normal form."""
        e = z3.simplify(e)
        if z3.is_and(e):
            for c in e.children():
                self.learn(c)
        elif z3.is_not(e):
            a = e.arg(0)
            if z3.is_or(a):
                for c in a.children():
                    self.learn(z3.Not(c))
            else:
                self._learn_bound(a, True)
        elif z3.is_eq(e) and z3.is_real(e.arg(0)):
            self.alg.learn(e.arg(0) - e.arg(1))
        else:
            self._learn_bound(e, False)

    def _learn_bound(self, e, neg):
        if not z3.is_app(e) or e.num_args() != 2:
            return
        k = e.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or not z3.is_real(e.arg(0)):
            return
        rf = self.alg.nf(e.arg(0) - e.arg(1))
        if rf is None or not all(n % 2 == 0 or self._p_nonneg(f) for f, n in rf[1].values()):
            return
        num = dict(rf[0])
        if rf[1] and _alg.ONE in num:
            return
        c0 = num.pop(_alg.ONE, Fraction(0))
        if len(num) != 1:
            return
        (m, c), = num.items()
        if len(m) != 1 or m[0][1] != 1:
            return
        up = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        if neg:
            up = not up
        if c < 0:
            up = not up
        b = -c0 / c
        if up:
            self.alg.set_bound(m[0][0], hi=b)
        else:
            self.alg.set_bound(m[0][0], lo=b)

    # ---- algebraic simplification
    def red_bool(self, e, depth=0):
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e) or depth > 6:
            return e
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_NOT:
            return z3.simplify(z3.Not(self.red_bool(e.arg(0), depth + 1)))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ch = [self.red_bool(c, depth + 1) for c in e.children()]
            return z3.simplify(z3.And(ch) if k == z3.Z3_OP_AND else z3.Or(ch))
        ops = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_LT: lambda a, b: a < b,
               z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_GT: lambda a, b: a > b,
               z3.Z3_OP_EQ: lambda a, b: a == b}
        if k in ops and e.num_args() == 2 and z3.is_real(e.arg(0)):
            d = e.arg(0) - e.arg(1)
            rf = self.alg.nf(d)
            c = self.alg.const(rf)
            if c is not None:
                return z3.simplify(ops[k](rv(c), rv(0)))
            if rf is not None and len(rf[0]) <= 40 and all(n % 2 == 0 or self._p_nonneg(f) for f, n in rf[1].values()):
                lo, hi = self.alg.interval(rf[0])
                if k == z3.Z3_OP_GE and lo is not None and lo >= 0 or k == z3.Z3_OP_GT and lo is not None and lo > 0 \
                        or k == z3.Z3_OP_LE and hi is not None and hi <= 0 or k == z3.Z3_OP_LT and hi is not None and hi < 0:
                    return z3.BoolVal(True)
                if k == z3.Z3_OP_GE and hi is not None and hi < 0 or k == z3.Z3_OP_GT and hi is not None and hi <= 0 \
                        or k == z3.Z3_OP_LE and lo is not None and lo > 0 or k == z3.Z3_OP_LT and lo is not None and lo >= 0 \
                        or k == z3.Z3_OP_EQ and (lo is not None and lo > 0 or hi is not None and hi < 0):
                    return z3.BoolVal(False)
            if rf is not None and rf[1] and len(rf[0]) <= 6:
                # denominators are non-zero (division guards): drop those of known sign
                if k == z3.Z3_OP_EQ or all(n % 2 == 0 or self._p_nonneg(f) for f, n in rf[1].values()):
                    rf = (rf[0], {})
                    c = self.alg.const(rf)
                    if c is not None:
                        return z3.simplify(ops[k](rv(c), rv(0)))
            if self.alg.small(rf, 6):
                num = self.alg.strip(rf[0]) if k == z3.Z3_OP_EQ else rf[0]
                if k == z3.Z3_OP_EQ and len(num) == 1:
                    (m, c), = num.items()
                    num = {tuple((v, 1) for v, _ in m): 1}
                e2 = z3.simplify(ops[k](self.alg.p_expr(num), rv(0)))
                if len(e2.sexpr()) < len(e.sexpr()) or num != rf[0]:
                    return e2
        return e

    def red(self, e, limit=6):
        """Smaller equivalent of a real expression (constant if it is one)."""
        e = z3.simplify(e)
        if z3.is_rational_value(e) or e.num_args() == 0:
            return e
        rf = self.alg.nf(e)
        if rf is None:
            return e
        c = self.alg.const(rf)
        if c is not None:
            return rv(c)
        if self.alg.small(rf, limit):
            e2 = self.alg.p_expr(rf[0])
            if z3.is_app(e) and len(e2.sexpr()) < len(e.sexpr()):
                return z3.simplify(e2)
        return e

    def deite(self, e):
        while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            e = e.arg(1) if self.branch(e.arg(0)) else e.arg(2)
        return e

    def choice(self, n):
        """Pure (solver-free) case split over n alternatives."""
        if self.pos < len(self.prefix):
            ch, left = self.prefix[self.pos]
        else:
            ch, left = 0, list(range(1, n))
            self.prefix.append((ch, left))
        self.pos += 1
        self.trace.append((ch, list(left)))
        return ch

    def split_int(self, e, limit=16):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.pos < len(self.prefix):
            ch, left = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((ch, list(left)))
            self.add(e == ch)
            return ch
        vals = []
        cons = list(self.cons)
        while len(vals) <= limit:
            t0 = time.time()
            r, s = check_constraints(cons, self.opts.branch_timeout)
            self.stats["branch_queries"] += 1
            self.stats["solver_s"] += time.time() - t0
            if r == z3.unsat:
                break
            if r == z3.unknown:
                raise Unsupported("integer split unknown")
            v = s.model().eval(e, model_completion=True).as_long()
            vals.append(v)
            cons.append(e != v)
        if len(vals) > limit:
            raise Unsupported("integer split too wide")
        if not vals:
            raise PathAbort("infeasible")
        vals.sort()
        ch, left = vals[0], vals[1:]
        self.pos += 1
        self.trace.append((ch, left))
        self.prefix.append((ch, left))
        self.add(e == ch)
        return ch

    def split_int_trunc(self, x):
        k = self.fresh_int("trunc")
        xe = to_e(x)
        kr = z3.ToReal(k)
        self.add(
            z3.Or(
                z3.And(xe >= 0, kr <= xe, xe < kr + 1),
                z3.And(xe < 0, kr >= xe, xe > kr - 1),
            )
        )
        return self.split_int(k)

    # ---- arithmetic with definitions
    def divide(self, a, b):
        b = self.red(self.deite(z3.simplify(b)))
        if z3.is_rational_value(b):
            f = b.as_fraction()
            if f == 0:
                raise NonFinite("division by zero")
            return mk(a * rv(1 / f))
        key = (a.get_id(), b.get_id())
        if key in self.div_cache:
            return self.div_cache[key]
        if b.get_id() not in self.nonneg and self.opts.div_checks:
            if self.branch(b == 0):
                raise NonFinite("division by zero")
            self.nonneg.add(b.get_id())
            self.keep.append(b)
        A = self.alg
        ra, rb = A.nf(a), A.nf(b)
        rf = None
        if ra is not None and rb is not None and rb[0]:
            try:
                rf = A.rf_mul(ra, A.rf_inv(rb))
            except (_alg.TooBig, ZeroDivisionError):
                rf = None
        r = None
        if rf is not None:
            c = A.const(rf)
            if c is not None:
                r = float(c) if _frac(float(c)) == c else S(rv(c))
            elif A.small(rf, 6):
                r = S(z3.simplify(A.p_expr(rf[0])))
            else:
                qk = (_alg.p_key(rf[0]), tuple(sorted((k, e) for k, (_, e) in rf[1].items())))
                if qk in self.quot:
                    r = self.quot[qk]
        if r is None:
            q = self.fresh("q")
            self.add(q * b == a)
            r = S(q)
            if rf is not None:
                A.defs[q.get_id()] = rf
                A.keep.append(q)
                self.quot[qk] = r
        self.div_cache[key] = r
        self.keep.extend([a, b])
        return r

    def sqrt(self, x):
        x = self.red(self.deite(z3.simplify(x)))
        if z3.is_rational_value(x):
            f = x.as_fraction()
            if f < 0:
                raise NonFinite("sqrt of negative")
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return float(Fraction(n, d))
            return math.sqrt(f)
        key = x.get_id()
        if key in self.sq_cache:
            return self.sq_cache[key]
        self.keep.append(x)
        rf = self.alg.nf(x)
        if not (rf is not None and self._rf_nonneg(rf)) and not _is_sum_of_squares(x):
            if self.branch(x < 0):
                raise NonFinite("sqrt of negative")
        res = None
        if rf is not None:
            try:
                res = self._sqrt_rf(rf)
            except _alg.TooBig:
                res = None
        if res is None:
            r = self.fresh("r")
            self.add(z3.And(r >= 0, r * r == x))
            res = S(r)
        self.sq_cache[key] = res
        return res

    def _rf_nonneg(self, rf):
        return self._p_nonneg(rf[0]) and all(e % 2 == 0 or self._p_nonneg(f) for f, e in rf[1].values())

    def _p_nonneg(self, p):
        nn = self.alg.nonneg
        return all(c > 0 and all(e % 2 == 0 or v in nn for v, e in m) for m, c in p.items())

    def _sqrt_rf(self, rf):
        A = self.alg
        num, den = rf
        scale = []  # z3 factors of the result
        inv = []
        for k, (f, e) in den.items():
            if e % 2 == 0 and not self._p_nonneg(f):
                return None
            if e % 2 and not self._p_nonneg(f):
                return None
        out = self._sqrt_poly(num)
        if out is None:
            return None
        for k, (f, e) in den.items():
            fe = A.p_expr(f)
            for _ in range(e // 2):
                out = self.divide(to_e(out), fe)
            if e % 2:
                out = self.divide(to_e(out), to_e(self._sqrt_poly(f)))
        return out

    def _sqrt_constant(self, k):
        A, p = self.alg, {(): k}
        rk = _alg.p_key(p)
        if rk not in A.rad:
            r = self.fresh("r")
            x = math.sqrt(k)
            self.add(z3.And(r * r == z3.Q(k.numerator, k.denominator), r >= x * (1 - 1e-9), r <= x * (1 + 1e-9)))
            i = A.var(r)
            A.define_sq(r, p)
            A.nonneg.add(i)
            A.rad[rk] = i
        return S(A.vexpr[A.rad[rk]])

    def _sqrt_poly(self, p):
        A = self.alg
        # monomial content with even exponents
        content = None
        for m in p:
            d = dict(m)
            content = d if content is None else {v: min(e, d.get(v, 0)) for v, e in content.items() if d.get(v, 0)}
        pulled = []
        cm = []
        for v, e in sorted((content or {}).items()):
            if e >= 2:
                cm.append((v, e - e % 2))
                pulled.append((v, (e - e % 2) // 2))
        if cm:
            p = A.divide_exact(p, {tuple(cm): Fraction(1)})
        lead = max(p, key=_alg._lexkey)
        k = abs(p[lead])
        n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
        c = Fraction(1)
        if n * n == k.numerator and d * d == k.denominator:
            c = Fraction(n, d)
            p = _alg.p_scale(p, 1 / k)
        exact = None
        root = self._poly_square_root(p)
        if root is None and c == 1 and k != 1:
            # constant factor without rational root: rounded like the concrete code does, or exact (a rounded one may contradict
            # exact roots; the witness of the case shows that it does not)
            root = self._poly_square_root(_alg.p_scale(p, 1 / k))
            if root is not None and getattr(self.opts, "exact_roots", False):
                exact = self._sqrt_constant(k)
            elif root is not None:
                c = Fraction(math.sqrt(k))
        if root is not None:
            out = mk(A.p_expr(root))
            if not self._p_nonneg(root):
                if len(root) > 1:
                    out = -out if self.branch(to_e(out) < 0) else out
                else:
                    out = abs(out)
        else:
            rk = _alg.p_key(p)
            if rk in A.rad:
                i = A.rad[rk]
                out = S(A.vexpr[i])
                if i not in A.nonneg:
                    out = abs(out)
            else:
                r = self.fresh("r")
                self.add(z3.And(r >= 0, r * r == A.p_expr(p)))
                i = A.var(r)
                A.define_sq(r, p)
                A.nonneg.add(i)
                A.rad[rk] = i
                out = S(r)
        if c != 1:
            out = out * c
        if exact is not None:
            out = out * exact
        for v, e in pulled:
            x = S(A.vexpr[v])
            if v not in A.nonneg:
                x = abs(x)
            for _ in range(e):
                out = out * x
        return out

    def _poly_square_root(self, p):
        """q with q*q == p for p with up to 3 terms of the shape (a +- b)^2."""
        if len(p) == 1:
            (m, c), = p.items()
            if all(e % 2 == 0 for _, e in m):
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if c > 0 and n * n == c.numerator and d * d == c.denominator:
                    return {tuple((v, e // 2) for v, e in m): Fraction(n, d)}
            return None
        if len(p) not in (3, 6):
            return None
        roots = []
        for m, c in p.items():
            if c > 0 and all(e % 2 == 0 for _, e in m):
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    roots.append((tuple((v, e // 2) for v, e in m), Fraction(n, d)))
        want = 2 if len(p) == 3 else 3
        if len(roots) != want:
            return None
        import itertools

        for signs in itertools.product((1, -1), repeat=want - 1):
            q = {}
            for (m, c), s in zip(roots, (1,) + signs):
                q[m] = c * s
            sq = {}
            for m1, c1 in q.items():
                for m2, c2 in q.items():
                    mm = _alg.mono_mul(m1, m2)
                    sq[mm] = sq.get(mm, 0) + c1 * c2
            if {m: c for m, c in sq.items() if c} == p:
                return q
        return None

    def probe(self, e):
        """True if e is implied by the path (quick check)."""
        t0 = time.time()
        r, _ = check_constraints(self.cons + [z3.Not(e)], self.opts.probe_timeout)
        self.stats["branch_queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        return r == z3.unsat

    def mod(self, x, m):
        if is_sym(m):
            raise Unsupported("symbolic modulus")
        k = self.fresh_int("modk")
        xe = to_e(x)
        r = xe - z3.ToReal(k) * rv(m)
        self.add(z3.And(r >= 0, r < rv(m)))
        return S(r)

    # ---- exp / log / pow: axiomatised
    def expf(self, x):
        xe = z3.simplify(to_e(x))
        if z3.is_rational_value(xe):
            return math.exp(float(xe.as_fraction()))
        for (a, r) in self.exp_terms:
            if a.eq(xe):
                return S(r)
        for (a, r) in self.log_terms:
            if r.eq(xe) or self.alg.is_zero(xe - r):
                return mk(a)
        r = self.fresh("exp")
        self.add(z3.And(r > 0, r >= 1 + xe, (xe >= 0) == (r >= 1), (xe == 0) == (r == 1)))
        self.add(z3.Implies(xe < 1, r * (1 - xe) <= 1))
        # coarse numeric enclosure
        for k in (-8, -4, -2, -1, -0.5, 0.5, 1, 2, 4, 8):
            v = math.exp(k)
            self.add(z3.Implies(xe >= rv(k), r >= rv(v * (1 - 1e-9))))
            self.add(z3.Implies(xe <= rv(k), r <= rv(v * (1 + 1e-9))))
        for (a, q) in self.exp_terms:
            self.add((xe < a) == (r < q))
            self.add((xe == a) == (r == q))
            self.add(z3.Implies(xe == -a, r * q == 1))
        self.exp_terms.append((xe, r))
        return S(r)

    def logf(self, x):
        xe = z3.simplify(to_e(x))
        if self.branch(xe <= 0):
            raise NonFinite("log of non positive")
        for (a, r) in self.log_terms:
            if a.eq(xe):
                return S(r)
        r = self.fresh("log")
        self.add(z3.And(r <= xe - 1, (xe >= 1) == (r >= 0), (xe == 1) == (r == 0)))
        self.add(r * xe >= xe - 1)
        for (a, q) in self.log_terms:
            self.add((xe < a) == (r < q))
            self.add((xe == a) == (r == q))
        self.log_terms.append((xe, r))
        return S(r)

    def powf(self, b, p):
        be, pe = z3.simplify(to_e(b)), z3.simplify(to_e(p))
        for (b0, p0, r) in self.pow_terms:
            if b0.eq(be) and p0.eq(pe):
                return S(r)
        if self.branch(be < 0):
            raise NonFinite("negative base with non-integer exponent")
        if self.branch(be == 0):
            if self.branch(pe == 0):
                return 1.0
            if self.branch(pe < 0):
                raise NonFinite("zero to a negative power")
            return 0.0
        r = self.fresh("pow")
        self.keep.extend([be, pe])
        self.add(r > 0)
        self.add(z3.Implies(be == 1, r == 1))
        self.add(z3.Implies(pe == 0, r == 1))
        self.add(z3.Implies(pe == 1, r == be))
        self.add(z3.Implies(pe == 2, r == be * be))
        self.add(z3.Implies(pe == -1, r * be == 1))
        lt, gt = be < 1, be > 1
        self.add(z3.Implies(z3.And(lt, pe > 0), r < 1))
        self.add(z3.Implies(z3.And(lt, pe < 0), r > 1))
        self.add(z3.Implies(z3.And(gt, pe > 0), r > 1))
        self.add(z3.Implies(z3.And(gt, pe < 0), r < 1))
        self.add(z3.Implies(z3.And(lt, pe >= 1), r <= be))
        self.add(z3.Implies(z3.And(lt, pe >= 0, pe <= 1), r >= be))
        self.add(z3.Implies(z3.And(gt, pe >= 1), r >= be))
        self.add(z3.Implies(z3.And(gt, pe >= 0, pe <= 1), r <= be))
        # Bernoulli / weighted AM-GM
        self.add(z3.Implies(z3.Or(pe >= 1, pe <= 0), r >= 1 + pe * (be - 1)))
        self.add(z3.Implies(z3.And(pe >= 0, pe <= 1), r <= 1 + pe * (be - 1)))
        for (b0, p0, r0) in self.pow_terms:
            # same exponent: monotone in the base; same base: monotone in the exponent
            self.add(z3.Implies(z3.And(pe == p0, pe > 0), (be < b0) == (r < r0)))
            self.add(z3.Implies(z3.And(pe == p0, be == b0), r == r0))
            self.add(z3.Implies(z3.And(be == b0, be > 1), (pe < p0) == (r < r0)))
            self.add(z3.Implies(z3.And(be == b0, be < 1), (pe < p0) == (r > r0)))
            self.add(z3.Implies(z3.And(be * b0 == 1, pe == p0), r * r0 == 1))
            self.add(z3.Implies(z3.And(be == b0, pe + p0 == 1), r * r0 == be))
        self.pow_terms.append((be, pe, r))
        return S(r)

    # ---- trigonometry
    def _atom(self, v, c=None, s=None, lo=None, hi=None):
        """Register angle v (z3 expr) with cosine/sine; returns (c, s) exprs."""
        key = v.get_id()
        if key in self.trig:
            return self.trig[key]
        if c is None and s is None:
            c = self.fresh("cos")
            s = self.fresh("sin")
            ci = self.alg.var(c)
            self.alg.define_sq(s, {(): Fraction(1), ((ci, 2),): Fraction(-1)})
            self.add(c * c + s * s == 1)
        elif not self.alg.is_zero(c * c + s * s - 1):
            self.add(c * c + s * s == 1)
        self.add(z3.And(c <= 1, c >= -1, s <= 1, s >= -1))
        if lo is not None:
            self.add(z3.And(v >= rv(lo), v <= rv(hi)))
            self.alg.set_bound(self.alg.var(v), Fraction(lo), Fraction(hi))
        pi, hpi = rv(PI), rv(PI / 2)
        inr = z3.And(v <= pi, v >= -pi)
        lem = [
            (v > 0) == (s > 0) if (lo, hi) == (None, None) or lo < 0 else z3.BoolVal(True),
        ]
        self.add(z3.Implies(z3.And(v > 0, v < pi), s > 0))
        self.add(z3.Implies(z3.And(v < 0, v > -pi), s < 0))
        self.add(z3.Implies(z3.And(v < hpi, v > -hpi), c > 0))
        self.add(z3.Implies(z3.And(v == hpi), z3.And(c == 0, s == 1)))
        self.add(z3.Implies(z3.And(v == -hpi), z3.And(c == 0, s == -1)))
        self.add(z3.Implies(z3.And(inr, z3.Or(v > hpi, v < -hpi)), c < 0))
        self.add(z3.Implies(v == 0, z3.And(c == 1, s == 0)))
        self.add(z3.Implies(z3.And(inr, c == 1), v == 0))
        self.add(z3.Implies(z3.Or(v == pi, v == -pi), z3.And(c == -1, s == 0)))
        self.add(z3.Implies(z3.And(inr, c == -1), z3.Or(v == pi, v == -pi)))
        # numeric relation between the angle and its sine / cosine
        av = z3.If(v >= 0, v, -v)
        as_ = z3.If(s >= 0, s, -s)
        self.add(as_ <= av)
        self.add(c >= 1 - v * v / 2)
        self.add(z3.Implies(z3.And(v <= hpi, v >= -hpi), as_ * hpi >= av))
        self.add(z3.Implies(z3.And(v <= hpi, v >= -hpi), c * hpi >= hpi - av))
        self.add(z3.Implies(z3.And(inr, av >= hpi), c * hpi <= hpi - av))
        for (v2, c2, s2) in self.trig_order:
            inr2 = z3.And(v2 <= pi, v2 >= -pi)
            av2 = z3.If(v2 >= 0, v2, -v2)
            self.add(z3.Implies(z3.And(inr, inr2), (av < av2) == (c > c2)))
            self.add(z3.Implies(v == v2, z3.And(c == c2, s == s2)))
            self.add(z3.Implies(v == -v2, z3.And(c == c2, s == -s2)))
        self.trig[key] = (c, s)
        self.trig_order.append((v, c, s))
        self.keep.append(v)
        return (c, s)

    def acos(self, x):
        x = self.red(self.deite(z3.simplify(x)))
        if z3.is_rational_value(x):
            return sacos(float(x.as_fraction()))
        key = ("acos", x.get_id())
        if key in self.acos_cache:
            return self.acos_cache[key]
        if self.branch(z3.Or(x > 1, x < -1)):
            raise NonFinite("arccos domain")
        t = self.fresh("acos")
        s = to_e(self.sqrt(1 - x * x))
        self._atom(t, x, s, 0.0, PI)
        res = S(t)
        self.acos_cache[key] = res
        self.keep.append(x)
        return res

    def asin(self, x):
        x = self.red(self.deite(z3.simplify(x)))
        if z3.is_rational_value(x):
            return sasin(float(x.as_fraction()))
        key = ("asin", x.get_id())
        if key in self.acos_cache:
            return self.acos_cache[key]
        if self.branch(z3.Or(x > 1, x < -1)):
            raise NonFinite("arcsin domain")
        t = self.fresh("asin")
        c = to_e(self.sqrt(1 - x * x))
        self._atom(t, c, x, -PI / 2, PI / 2)
        res = S(t)
        self.acos_cache[key] = res
        self.keep.append(x)
        return res

    def atan2(self, y, x):
        y, x = self.red(self.deite(z3.simplify(y))), self.red(self.deite(z3.simplify(x)))
        if z3.is_rational_value(x) and z3.is_rational_value(y):
            return math.atan2(float(y.as_fraction()), float(x.as_fraction()))
        if z3.is_rational_value(y) and y.as_fraction() == 0:
            return 0.0 if self.branch(x >= 0) else PI
        if z3.is_rational_value(x) and x.as_fraction() == 0:
            if self.branch(y == 0):
                return 0.0
            return PI / 2 if self.branch(y > 0) else -PI / 2
        key = ("atan2", y.get_id(), x.get_id())
        if key in self.acos_cache:
            return self.acos_cache[key]
        r = to_e(self.sqrt(x * x + y * y))
        if self.branch(r == 0):
            self.add(z3.And(x == 0, y == 0))
            self.learn(z3.And(x == 0, y == 0))
            return 0.0
        if not z3.is_rational_value(r):
            self.add(r > 0)
            self.nonneg.add(r.get_id())
            self.keep.append(r)
        c, s = to_e(self.divide(x, r)), to_e(self.divide(y, r))
        t = self.fresh("atan2")
        self._atom(t, c, s, -PI, PI)
        self.add(t > rv(-PI))
        # redundant, but keeps the sign information linear
        self.add((y > 0) == z3.And(t > 0, t < rv(PI)))
        self.add((y < 0) == (t < 0))
        self.add((x > 0) == z3.And(t < rv(PI / 2), t > rv(-PI / 2)))
        res = S(t)
        self.acos_cache[key] = res
        self.keep.extend([x, y])
        return res

    def cossin(self, x):
        xe = z3.simplify(self.deite(self.red(to_e(x))), som=True)
        terms, const = _linear(xe)
        # constant part
        c, s = self._const_cs(const)
        for coef, e in terms:
            n = coef
            base = e
            if n.denominator != 1:
                base = z3.simplify(rv(Fraction(1, n.denominator)) * e)
                n = Fraction(n.numerator)
                full_known = e.get_id() in self.trig
                bc, bs = self._atom(base)
                if full_known and coef.denominator == 2:
                    fc, fs = self.trig[e.get_id()]
                    self.add(z3.And(fc == bc * bc - bs * bs, fs == 2 * bs * bc))
            else:
                bc, bs = self._atom(base)
            k = int(n)
            if abs(k) > 8:
                raise Unsupported("large multiple of an angle")
            sc, ss = bc, (bs if k > 0 else -bs)
            for _ in range(abs(k)):
                c, s = _addc(c, s, S(sc), S(ss))
        return self._redS(c), self._redS(s)

    def _redS(self, x):
        if not is_sym(x):
            return x
        return mk(self.red(x.e, 4))

    def _const_cs(self, f):
        if f in self.const_cs:
            return self.const_cs[f]
        c, s = _const_cs(f)
        if c not in (0.0, 1.0, -1.0):
            ce, se = self.fresh("ccos"), self.fresh("csin")
            ci = self.alg.var(ce)
            self.alg.define_sq(se, {(): Fraction(1), ((ci, 2),): Fraction(-1)})
            eps = Fraction(1, 10 ** 14)
            self.add(z3.And(ce * ce + se * se == 1, ce >= rv(Fraction(c) - eps), ce <= rv(Fraction(c) + eps),
                            se >= rv(Fraction(s) - eps), se <= rv(Fraction(s) + eps)))
            c, s = S(ce), S(se)
        self.const_cs[f] = (c, s)
        return c, s


def _addc(c, s, c2, s2):
    return c * c2 - s * s2, s * c2 + c * s2


def _const_cs(f: Fraction):
    if f == 0:
        return 1.0, 0.0
    x = float(f)
    k = x / (PI / 2)
    if abs(k - round(k)) < 1e-12:
        i = round(k) % 4
        return [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][i]
    return math.cos(x), math.sin(x)


def _linear(e):
    """e (sum of monomials) -> ([(coef, rest_expr)], const)"""
    terms, const = [], Fraction(0)
    stack = [e]
    while stack:
        t = stack.pop()
        if z3.is_rational_value(t):
            const += t.as_fraction()
        elif z3.is_add(t):
            stack.extend(t.children())
        elif z3.is_sub(t):
            ch = t.children()
            stack.append(ch[0])
            stack.extend(z3.simplify(-x) for x in ch[1:])
        elif z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
            ch = t.children()
            coef = ch[0].as_fraction()
            rest = ch[1]
            for x in ch[2:]:
                rest = rest * x
            rest = z3.simplify(rest)
            # keep only "nice" integer/half coefficients outside of the atom
            if coef.denominator in (1, 2) and abs(coef) <= 8:
                terms.append((coef, rest))
            else:
                terms.append((Fraction(1), z3.simplify(t)))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            terms.append((Fraction(-1), t.arg(0)))
        else:
            terms.append((Fraction(1), t))
    return terms, const


def _is_sum_of_squares(e):
    if z3.is_rational_value(e):
        return e.as_fraction() >= 0
    if z3.is_add(e):
        return all(_is_sum_of_squares(c) for c in e.children())
    if z3.is_mul(e):
        ch = e.children()
        coef = Fraction(1)
        rest = []
        for c in ch:
            if z3.is_rational_value(c):
                coef *= c.as_fraction()
            else:
                rest.append(c)
        if coef < 0:
            return False
        ids = {}
        for c in rest:
            ids[c.get_id()] = ids.get(c.get_id(), 0) + 1
        return all(v % 2 == 0 for v in ids.values())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_POWER:
        return z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() % 2 == 0
    return False
