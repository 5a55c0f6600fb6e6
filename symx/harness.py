"""Harness API, exploration, solving, replay."""
from __future__ import annotations

import importlib
import json
import math
import os
import random
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REGISTRY: dict = {}


class Harness:
    def __init__(self, fn, name, functions, bounds, cases, opts):
        self.fn, self.name, self.functions, self.bounds = fn, name, functions, bounds
        self.cases = cases or [None]
        self.opts = opts


def harness(functions, bounds="", cases=None, thorough_cases=None, name=None, **opts):
    """Register a harness.  functions: what of /repo it executes; bounds: stated bounds."""

    def deco(fn):
        cs = cases
        if thorough_cases is not None and os.environ.get("VERIF_TIER") == "thorough":
            cs = list(cases or []) + [c for c in thorough_cases if c not in (cases or [])]
        h = Harness(fn, name or fn.__name__, functions, bounds, cs, opts)
        REGISTRY[h.name] = h
        return fn

    return deco


class Assumed(Exception):
    """concrete run: inputs violate an assumption"""


class CheckFailed(Exception):
    pass


class Hang(Exception):
    """the code under test used up its CPU time without reaching a new decision"""


class CpuLimit:
    """Raise Hang in the main thread when `seconds` of CPU time pass without `progress()` changing."""

    def __init__(self, seconds, progress=lambda: 0):
        self.seconds, self.progress = seconds, progress

    def __enter__(self):
        import signal

        self.last = None

        def tick(*_):
            now = self.progress()
            if now == self.last:
                raise Hang(f"no end after {self.seconds} s of CPU time")
            self.last = now

        self.last = self.progress()
        self.old = signal.signal(signal.SIGPROF, tick)
        signal.setitimer(signal.ITIMER_PROF, self.seconds, self.seconds)

    def __exit__(self, *exc):
        import signal

        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


# ------------------------------------------------------------------ symbolic context
class SymCtx:
    symbolic = True

    def __init__(self, path, tier):
        from . import core, npproxy

        self.core = core
        self.p = path
        self.tier = tier
        self.np = npproxy.NP
        self.la = npproxy.LAP
        self.math = npproxy.MATH
        self.obligations = []
        self.counters = {}
        self._units = []

    def _name(self, name):
        k = self.counters.get(name, 0)
        self.counters[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def real(self, name, lo=None, hi=None):
        import z3

        n = self._name(name)
        v = z3.Real(n)
        self.p.inputs[n] = v
        if lo is not None:
            self.p.add(v >= self.core.rv(lo))
            self.p.alg.set_bound(self.p.alg.var(v), lo=self.core._frac(lo))
        if hi is not None:
            self.p.add(v <= self.core.rv(hi))
            self.p.alg.set_bound(self.p.alg.var(v), hi=self.core._frac(hi))
        return self.core.S(v)

    def vec(self, name, n, lo=None, hi=None):
        return self.np.array([self.real(f"{name}{i}", lo, hi) for i in range(n)])

    def mat(self, name, n, m, lo=None, hi=None):
        return self.np.array([[self.real(f"{name}{i}{j}", lo, hi) for j in range(m)] for i in range(n)])

    def unit(self, name, n):
        v = self.vec(name, n, -1, 1)
        from fractions import Fraction

        s = sum((x * x for x in v), 0.0)
        self.p.add((s == 1.0).e)
        A = self.p.alg
        idx = [A.var(x.e) for x in v]
        poly = {(): Fraction(1)}
        for i in idx[:-1]:
            poly[((i, 2),)] = Fraction(-1)
        A.define_sq(v[-1].e, poly)
        # Cauchy-Schwarz with the other unit vectors (checked as an algebraic identity)
        for u in self._units:
            if len(u) == n:
                self.cauchy(u, v)
        self._units.append(v)
        return v

    def cauchy(self, u, v):
        """Add -1 <= u.v <= 1 for unit u, v after verifying |v - (u.v) u|^2 == 1 - (u.v)^2."""
        d = sum((a * b for a, b in zip(u, v)), 0.0)
        w = [b - d * a for a, b in zip(u, v)]
        lhs = sum((x * x for x in w), 0.0) - (1.0 - d * d)
        if not self.core.is_sym(lhs) or self.p.alg.is_zero(lhs.e):
            self.p.add((d <= 1.0).e)
            self.p.add((d >= -1.0).e)

    def ortho_pair(self, name, dim):
        """Arbitrary orthonormal pair of vectors (columns of a dim x 2 array)."""
        if dim == 2:
            b0 = self.unit(name, 2)
            s = 1.0 if self.boolean(name + "flip") else -1.0
            return self.np.array([b0, [-b0[1] * s, b0[0] * s]]).T
        return self.rot3(name)[:, :2]

    def unit_pair(self, name, dim, cmin=None, cmax=None):
        """Two arbitrary unit vectors v, w = c v + s v_perp (s >= 0); returns v, w, c, s."""
        b = self.ortho_pair(name, dim)
        cs = self.unit(name + "_cs", 2)
        c, s = cs
        self.assume(s >= 0)
        self.mark_nonneg(s)
        if cmin is not None:
            self.assume(c >= cmin)
        if cmax is not None:
            self.assume(c <= cmax)
        return b[:, 0], c * b[:, 0] + s * b[:, 1], c, s

    def mark_nonneg(self, x):
        """tell the normal form about an assumption x >= 0 already made"""
        if self.symbolic and self.core.is_sym(x):
            self.p.alg.nonneg.add(self.p.alg.var(x.e))

    def rot3(self, name):
        """Arbitrary 3D rotation matrix (from a unit quaternion)."""
        return _quat_matrix(self, self.unit(name, 4))

    def rot(self, name, dim):
        if dim == 3:
            return self.rot3(name)
        c = self.unit(name, 2)
        return self.np.array([[c[0], -c[1]], [c[1], c[0]]])

    def int_(self, name, lo, hi):
        import z3

        n = self._name(name)
        v = z3.Int(n)
        self.p.inputs[n] = v
        self.p.add(z3.And(v >= lo, v <= hi))
        return self.core.SI(v)

    def boolean(self, name):
        return bool(self.choice(name, 2))

    def choice(self, name, n):
        """Case split over range(n): each case is its own set of symbolic paths."""
        nm = self._name(name)
        c = self.p.choice(n)
        self.p.inputs[nm] = c
        return c

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def assume(self, cond):
        import z3

        if self.core.is_sym(cond):
            e = z3.simplify(self.core.to_b(cond))
            if z3.is_false(e):
                raise self.core.PathAbort("assumption")
            self.p.add(e)
            self.p.learn(e)
        elif not bool(cond):
            raise self.core.PathAbort("assumption")

    def settle(self):
        """Stop here if the assumptions made so far are infeasible."""
        import z3

        if self.p.feasible(z3.BoolVal(True)) == z3.unsat:
            raise self.core.PathAbort("assumption")

    def mod(self, name):
        return importlib.import_module(name)

    def decide(self, cond):
        """Branch of the harness itself."""
        return bool(cond)

    def red(self, x):
        """x in normal form (same value; denominators are those of divisions already made)"""
        if not self.core.is_sym(x):
            return x
        rf = self.p.alg.nf(x.e)
        if rf is None:
            return x
        c = self.p.alg.const(rf)
        if c is not None:
            return self.core.S(self.core.rv(c))
        import z3

        num = z3.simplify(self.p.alg.p_expr(rf[0]))
        den = self.core.rv(1)
        for f, n in rf[1].values():
            for _ in range(n):
                den = den * self.p.alg.p_expr(f)
        den = z3.simplify(den)
        if z3.is_rational_value(den):
            return self.core.S(z3.simplify(num / den))
        q = self.p.fresh("red")
        sign = 1
        for f, n in rf[1].values():  # sign of the denominator, where it is fixed
            fe = self.p.alg.p_expr(f)
            if n % 2 == 0:
                continue
            if self.p.feasible(fe <= 0, 500) == z3.unsat:
                self.p.add(fe > 0)
            elif self.p.feasible(fe >= 0, 500) == z3.unsat:
                self.p.add(fe < 0)
                sign = -sign
            else:
                sign = 0
                break
        self.p.add(q * den == num)
        if sign:
            self.p.add(z3.And((q > 0) == (sign * num > 0), (q < 0) == (sign * num < 0)))
        return self.core.S(q)

    # -- obligations: (label, exact_expr, margin_expr)
    def check(self, label, cond):
        e = self.core.to_b(cond)
        self.obligations.append((label, e, e))

    def le(self, label, a, b, tol=1e-4):
        a, b = self.p.red(self.core.to_e(a) - self.core.to_e(b)), self.core.rv(0)
        self.obligations.append((label, a <= b, a <= b + self.core.rv(tol)))

    def ge(self, label, a, b, tol=1e-4):
        self.le(label, b, a, tol)

    def lt(self, label, a, b):
        self.check(label, a < b)

    def close(self, label, a, b, tol=1e-4):
        import z3

        np_ = self.np
        fa, fb = _flatten(a), _flatten(b)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) != len(fb):
            self.obligations.append((label + ":shape", z3.BoolVal(False), z3.BoolVal(False)))
            return
        ex, mg = [], []
        t = self.core.rv(tol)
        for x, y in zip(fa, fb):
            if x is None or y is None:
                ex.append(z3.BoolVal(x is y))
                mg.append(z3.BoolVal(x is y))
                continue
            xe, ye = self.core.to_e(x), self.core.to_e(y)
            if self.p.alg.is_zero(xe - ye):
                self.p.stats["algebraic"] = self.p.stats.get("algebraic", 0) + 1
                continue
            xe, ye = self.p.red(xe - ye), self.core.rv(0)
            ex.append(xe == ye)
            mg.append(z3.And(xe - ye <= t, ye - xe <= t))
        self.obligations.append((label, z3.And(ex), z3.And(mg)))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.check(label, True)
            return True
        except (self.core.Unsupported, self.core.NonFinite):
            raise
        except Exception as e:  # wrong type
            self.check(label, False)
            return False
        self.check(label, False)
        return False

    def fail(self, label):
        self.check(label, False)

    def hint(self, cond, ms=2000):
        """Use cond as a fact if the solver shows that it follows; otherwise drop it."""
        if self.core.is_sym(cond) and self.p.feasible(self.core.z3.Not(cond.e), ms) == self.core.z3.unsat:
            self.p.add(cond.e)

    def hint_equal(self, a, b):
        """Use a == b as a fact if both have the same normal form; otherwise drop it."""
        a, b = self.core.to_e(a), self.core.to_e(b)
        if self.p.alg.is_zero(a - b):
            self.p.add(a == b)

    def derive(self, values, premises, conclusion, ms=3000):
        """Use conclusion(*values) as a fact if it follows from premises(*values) for arbitrary values, and these hold here."""
        z3 = self.core.z3
        v = [self.core.S(self.p.fresh("any")) for _ in values]
        s = z3.Solver()
        s.set("timeout", ms)
        for c in list(premises(*v)) + [self.core.mkb(z3.Not(conclusion(*v).e))]:
            s.add(self.core.to_b(c))
        if s.check() != z3.unsat:
            return False
        for c in premises(*values):
            c = self.core.to_b(c)
            if not z3.is_true(z3.simplify(c)) and self.p.feasible(z3.Not(c), ms) != z3.unsat:
                return False
        self.p.add(self.core.to_b(conclusion(*values)))
        return True

    def lemma(self, label, cond):
        """Prove cond (recorded as an obligation), then use it as a fact."""
        self.check(label, cond)
        if self.core.is_sym(cond):
            self.p.add(cond.e)


def _quat_matrix(t, q):
    x, y, z, w = q
    return t.np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ])


def _flatten(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return list(x.flat)
    if isinstance(x, (list, tuple)):
        r = []
        for v in x:
            r.extend(_flatten(v))
        return r
    return [x]


# ------------------------------------------------------------------ concrete context
class ConCtx:
    symbolic = False

    def __init__(self, inputs, tier):
        import numpy as np

        self.inputs = inputs
        self.tier = tier
        self.np = np
        self.la = np.linalg
        self.math = math
        self.counters = {}
        self.tolscale = 0.5
        self.failures = []
        self.done = []
        self.missing = []

    def _name(self, name):
        k = self.counters.get(name, 0)
        self.counters[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def real(self, name, lo=None, hi=None):
        n = self._name(name)
        if n not in self.inputs:
            self.missing.append(n)
            lo_ = -1.0 if lo is None else lo
            hi_ = lo_ + 2.0 if hi is None else hi
            return float((lo_ + hi_) / 2)
        return float(self.inputs[n])

    def vec(self, name, n, lo=None, hi=None):
        return self.np.array([self.real(f"{name}{i}", lo, hi) for i in range(n)])

    def mat(self, name, n, m, lo=None, hi=None):
        return self.np.array([[self.real(f"{name}{i}{j}", lo, hi) for j in range(m)] for i in range(n)])

    def unit(self, name, n):
        v = self.vec(name, n, -1, 1)
        nn = self.np.linalg.norm(v)
        if nn == 0:
            v = self.np.eye(n)[0]
            nn = 1.0
        return v / nn

    ortho_pair = SymCtx.ortho_pair
    unit_pair = SymCtx.unit_pair
    mark_nonneg = SymCtx.mark_nonneg
    rot3 = SymCtx.rot3
    rot = SymCtx.rot

    def int_(self, name, lo, hi):
        n = self._name(name)
        return int(self.inputs.get(n, lo))

    def boolean(self, name):
        return bool(self.choice(name, 2))

    def choice(self, name, n):
        return int(self.inputs.get(self._name(name), 0))

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def assume(self, cond):
        if not bool(cond):
            # rounding of the model may break a boundary assumption slightly: tolerated by
            # the caller (reported, not fatal)
            self.missing.append("assumption")
            raise Assumed()

    def settle(self):
        pass

    def mod(self, name):
        return importlib.import_module(name)

    def decide(self, cond):
        return bool(cond)

    def red(self, x):
        return x

    def _rec(self, label, ok, info=""):
        self.done.append(label)
        if not ok:
            self.failures.append((label, info))

    def check(self, label, cond):
        self._rec(label, bool(cond))

    def le(self, label, a, b, tol=1e-4):
        ok = bool(a <= b + tol * self.tolscale)
        self._rec(label, ok, f"{a} <= {b}")

    def ge(self, label, a, b, tol=1e-4):
        self.le(label, b, a, tol)

    def lt(self, label, a, b):
        self._rec(label, bool(a < b), f"{a} < {b}")

    def close(self, label, a, b, tol=1e-4):
        fa, fb = _flatten(a), _flatten(b)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) != len(fb):
            self._rec(label + ":shape", False, f"{a} vs {b}")
            return
        ok = True
        for x, y in zip(fa, fb):
            if x is None or y is None:
                ok = ok and x is y
            else:
                ok = ok and bool(abs(float(x) - float(y)) <= tol * self.tolscale)
        self._rec(label, ok, f"{a} vs {b}")

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self._rec(label, True)
            return True
        except Exception as e:
            self._rec(label, False, f"raised {type(e).__name__}: {e}")
            return False
        self._rec(label, False, "no exception")
        return False

    def fail(self, label):
        self._rec(label, False)

    def hint(self, cond, ms=2000):
        pass

    def derive(self, values, premises, conclusion, ms=3000):
        pass

    def hint_equal(self, a, b):
        pass

    def lemma(self, label, cond):
        self.check(label, cond)


def stand_in_gap(e):
    """The reason, when an exception tells that a check (not the code) lacks something: a stand-in that is asked in a way it does not
    know, or a check that calls a function which is not there under this name or signature.  Such a run decides nothing."""
    import types

    def ours(cls):
        f = getattr(sys.modules.get(cls.__module__), "__file__", None) or ""
        return f.startswith((os.path.join(HERE, "checks"), os.path.join(HERE, "envstubs"), os.path.join(HERE, "symx")))

    def stand_in(cls):
        return cls is types.SimpleNamespace or (ours(cls) and not any(b.__module__.startswith("nonlinear_avoidance") for b in cls.__mro__))

    frames = traceback.extract_tb(e.__traceback__)
    in_check = bool(frames) and frames[-1].filename.startswith(os.path.join(HERE, "checks"))
    if isinstance(e, AttributeError) and getattr(e, "name", None) is not None:
        obj = e.obj
        if isinstance(obj, types.ModuleType):
            f = getattr(obj, "__file__", None) or ""
            return f.startswith(HERE) or not f or (in_check and obj.__name__.startswith("nonlinear_avoidance"))
        cls = obj if isinstance(obj, type) else type(obj)
        return stand_in(cls) or (in_check and cls.__module__.startswith("nonlinear_avoidance"))
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got an unexpected keyword|got some positional-only|takes |missing |got multiple values)", str(e))
        if m:
            if in_check:
                return True
            if m.group(2) == "missing ":
                return False
            parts = m.group(1).split(".")
            if "<locals>" in parts or "<lambda>" in parts:
                return any(hasattr(x, "__name__") and x.__name__.startswith("checks.") and hasattr(x, parts[0]) for x in list(sys.modules.values()))
            for name, mod in list(sys.modules.items()):
                if name.startswith("checks.") or (getattr(mod, "__file__", None) or "").startswith(os.path.join(HERE, "envstubs")):
                    if hasattr(mod, parts[0]) and getattr(getattr(mod, parts[0]), "__module__", "") == name:
                        cls = getattr(mod, parts[0])
                        return stand_in(cls) if isinstance(cls, type) else True
    if isinstance(e, ImportError):
        return (e.name or "").split(".")[0] != "nonlinear_avoidance"
    return False


def run_concrete(check_module, hname, case_idx, inputs, tier, tolscale=0.5):
    """Executed in the replay interpreter: real numpy, real code."""
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    importlib.import_module(check_module)
    h = REGISTRY[hname]
    t = ConCtx(inputs, tier)
    t.tolscale = tolscale
    res = {"exception": None}
    try:
        with CpuLimit(25):
            if h.cases[case_idx] is None:
                h.fn(t)
            else:
                h.fn(t, h.cases[case_idx])
    except Assumed:
        res["assumption_failed"] = True
    except Exception as e:
        if stand_in_gap(e):
            res["gap"] = True
        res["exception"] = f"{type(e).__name__}: {e}"
        res["traceback"] = traceback.format_exc()[-1500:]
    res["failures"] = t.failures
    res["done"] = len(t.done)
    res["missing"] = t.missing
    return res


# ------------------------------------------------------------------------ exploration
class Opts:
    pass


def model_inputs(path, model):
    import z3

    out = {}
    for n, v in path.inputs.items():
        if isinstance(v, int):
            out[n] = v
            continue
        x = model.eval(v, model_completion=True)
        if z3.is_int_value(x):
            out[n] = x.as_long()
        elif z3.is_rational_value(x):
            out[n] = float(x.as_fraction())
        elif z3.is_algebraic_value(x):
            out[n] = float(x.approx(30).as_fraction())
        else:
            out[n] = 0.0
    return out


def replay_python():
    for p in ("/opt/venv/bin/python",):
        if os.path.exists(p):
            return p
    return sys.executable


class Replayer:
    """Persistent concrete interpreter."""

    def __init__(self, check_module):
        self.mod = check_module
        self.proc = None

    def run(self, hname, case_idx, inputs, tier, tolscale=0.5):
        if self.proc is None or self.proc.poll() is not None:
            env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", VERIF_TIER=tier,
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
            self.proc = subprocess.Popen(
                [replay_python(), "-m", "symx.replay", "--serve", self.mod],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                text=True, cwd=HERE, env=env)
        self.proc.stdin.write(json.dumps(dict(h=hname, case=case_idx, inputs=inputs, tier=tier,
                                         tolscale=tolscale)) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            return {"error": "replay process died"}
        return json.loads(line)

    def close(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()


SOLVER_TACTICS = (None, "qfnra-nlsat")


def solve_cvc5(cons, timeout_ms):
    """Second opinion: returns 'unsat' / 'sat' / 'unknown'."""
    import z3

    try:
        import cvc5
    except ImportError:
        return "unknown"
    s = z3.Solver()
    for c in cons:
        s.add(c)
    smt = s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout_ms)))
        slv.setLogic("QF_NIRA" if "Int" in smt else "QF_NRA")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = str(cmd.invoke(slv, sm)).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res
    except Exception:
        return "unknown"


def explore(h: Harness, case_idx, tier, check_module, budget):
    import z3

    from . import core

    o = Opts()
    o.stats = dict(branch_queries=0, solver_s=0.0, queries=0, unsat=0, sat=0, unknown=0, cvc5_unsat=0)
    quick = tier == "quick"
    o.branch_timeout = h.opts.get("branch_timeout", 1500 if quick else 5000)
    o.probe_timeout = h.opts.get("probe_timeout", 150)
    o.sqrt_probe = h.opts.get("sqrt_probe", True)
    o.exact_roots = h.opts.get("exact_roots", False)
    o.resolve = h.opts.get("resolve", False)
    o.div_checks = h.opts.get("div_checks", True)
    o.max_depth = h.opts.get("max_depth", 60)
    max_paths = h.opts.get("max_paths", 400 if quick else 3000)
    q_timeout = h.opts.get("timeout", 8000 if quick else 40000)
    if not quick:
        q_timeout = max(q_timeout * 3, 30000)
    o.truncated = False
    start = time.time()
    o.deadline = start + budget
    z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1")))

    res = dict(harness=h.name, case=case_idx, paths=0, checked_paths=0, obligations=0, discharged=0,
               inconclusive=[], violations=[], spurious=[], unsupported=[], witness=False,
               samples=[], labels={}, truncated=False, path_aborts=0, functions=h.functions, bounds=h.bounds)
    rep = Replayer(check_module)
    prefix = []
    seen_viol = set()
    spurious_count = {}
    first = True
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))

    def query(cons, timeout):
        o.stats["queries"] += 1
        t0 = time.time()
        r = z3.unknown
        s = None
        n = 0
        for tac in SOLVER_TACTICS:
            tm = timeout if tac is None else timeout / 2
            if time.time() > o.deadline + 30 and n:
                break
            n += 1
            try:
                r, s = core.check_constraints(cons, tm, tac)
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
        if r == z3.unknown and h.opts.get("cvc5", False):
            if solve_cvc5(cons, timeout) == "unsat":
                r = z3.unsat
                o.stats["cvc5_unsat"] += 1
        o.stats["solver_s"] += time.time() - t0
        o.stats[str(r)] = o.stats.get(str(r), 0) + 1
        return r, s

    def confirm(path, s, label):
        """Replay a model; returns replay dict if it reproduces."""
        tried = []
        model = s.model()
        inputs = model_inputs(path, model)
        out = rep.run(h.name, case_idx, inputs, tier)
        tried.append(inputs)
        if _reproduces(out):
            return inputs, out, tried
        # snap to round values
        def attempt(fix):
            r, s2 = core.check_constraints(fix, 3000)
            return (r, s2)
        return None, out, tried

    def _reproduces(out):
        if out.get("error"):
            return False
        if out.get("failures"):
            return True
        return bool(out.get("exception")) and not out.get("gap")

    def hunt(path, base, label, s):
        """Try several models of a satisfiable query until one reproduces concretely."""
        got = confirm(path, s, label)
        if got[0] is not None:
            return got[:2]
        ins = {n: v for n, v in path.inputs.items() if not isinstance(v, int)}
        model = s.model()
        tend = time.time() + (20 if quick else 60)
        # 1. snap coordinates to coarse dyadic values one by one
        fixed = []
        for n, v in list(ins.items())[:24]:
            if time.time() > tend:
                break
            if z3.is_int(v):
                continue
            x = model.eval(v, model_completion=True)
            try:
                xf = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(20).as_fraction())
            except Exception:
                continue
            for den in (1, 4, 64):
                cand = round(xf * den) / den
                r, s2 = core.check_constraints(base + fixed + [v == core.rv(cand)], 1500)
                if r == z3.sat:
                    fixed.append(v == core.rv(cand))
                    model = s2.model()
                    s = s2
                    break
        got = confirm(path, s, label)
        if got[0] is not None:
            return got[:2]
        # 2. diversify
        for k in range(4):
            if time.time() > tend or not ins:
                break
            blk = []
            for n, v in ins.items():
                if z3.is_int(v):
                    continue
                x = model.eval(v, model_completion=True)
                if z3.is_rational_value(x):
                    blk.append(z3.Or(v > x + rng.choice([0.1, 0.3, 1]), v < x - rng.choice([0.1, 0.3, 1])))
            rng.shuffle(blk)
            r, s2 = core.check_constraints(base + blk[: max(1, len(blk) // 2)], 3000)
            if r != z3.sat:
                continue
            model = s2.model()
            got = confirm(path, s2, label)
            if got[0] is not None:
                return got[:2]
        return None, got[1]

    def slice_hunt(path, base):
        """unknown query: pin part of the inputs and let the solver decide the rest."""
        ins = [(n, v) for n, v in path.inputs.items() if not isinstance(v, int) and not z3.is_int(v)]
        tend = time.time() + h.opts.get("slice_s", 6 if quick else 60)
        tries = 0
        while time.time() < tend and tries < 12 and ins:
            tries += 1
            keep = rng.randint(1, max(1, min(3, len(ins) - 1)))
            pins = rng.sample(ins, max(0, len(ins) - keep))
            cons = list(base)
            for n, v in pins:
                val = rng.choice([0, 1, -1, 0.5, -0.5, 2, 0.25, 1.5, 0.6, 0.8, -0.6, -0.8, 3])
                c = v == core.rv(val)
                cons.append(c)
            r, s = core.check_constraints(cons, 1500)
            if r == z3.sat:
                return s
        return None

    def handle_sat(path, base, label, s, kind):
        key = (label,)
        if key in seen_viol:
            return
        inputs, out = hunt(path, base, label, s)
        if inputs is not None:
            seen_viol.add(key)
            fl = out.get("failures") or []
            res["violations"].append(dict(label=label, kind=kind, inputs=inputs, replay=out,
                                          failed=[f[0] for f in fl]))
        else:
            spurious_count[label] = spurious_count.get(label, 0) + 1
            if len(res["spurious"]) < 8:
                res["spurious"].append(dict(label=label, kind=kind, inputs=model_inputs(path, s.model()), replay=out))

    conc = dict(n=0)

    def concolic(path):
        """The rest of this path could not be decided: let the solver produce inputs that reach it and
        run the real code on them (can only refute, with a doubled margin; never counts as discharged)."""
        if conc["n"] >= (6 if quick else 30) or seen_viol:
            return
        conc["n"] += 1
        models = []
        r, s = core.check_constraints(path.cons, 3000)
        if r == z3.sat:
            models.append(s)
        s2 = slice_hunt(path, list(path.cons))
        if s2 is not None:
            models.append(s2)
        for s in models:
            inputs = model_inputs(path, s.model())
            out = rep.run(h.name, case_idx, inputs, tier, 2.0)
            if out.get("error") or out.get("assumption_failed") or (out.get("gap") and not out.get("failures")):
                continue
            if out.get("failures") or out.get("exception"):
                fl = out.get("failures") or []
                lab = fl[0][0] if fl else "exception:" + str(out.get("exception")).split(":")[0]
                if (lab,) in seen_viol:
                    continue
                seen_viol.add((lab,))
                res["violations"].append(dict(label=lab, kind="concolic", inputs=inputs, replay=out,
                                              failed=[f[0] for f in fl]))
                return

    while True:
        if time.time() > o.deadline or res["paths"] >= max_paths:
            res["truncated"] = True
            break
        if len(res["violations"]) >= 3 or ("exception:Hang",) in seen_viol:
            break
        path = core.Path(prefix, o)
        core.set_cur(path)
        t = SymCtx(path, tier)
        exc = None
        aborted = False
        try:
            with CpuLimit(15, lambda: (len(path.trace), o.stats["branch_queries"], o.stats["solver_s"], len(t.obligations))):
                if h.cases[case_idx] is None:
                    h.fn(t)
                else:
                    h.fn(t, h.cases[case_idx])
        except core.PathAbort as e:
            aborted = True
            if str(e) in ("deadline", "depth"):
                res["truncated"] = True
        except core.Unsupported as e:
            aborted = True
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if core_not(f.filename)]
            res["unsupported"].append(f"{e} @ {loc[-1].filename}:{loc[-1].lineno}" if loc else str(e))
            concolic(path)
        except RecursionError as e:
            aborted = True
            res["unsupported"].append("recursion")
        except z3.Z3Exception as e:
            aborted = True
            res["unsupported"].append(f"z3: {e} {traceback.format_exc()[-600:]}")
            concolic(path)
        except Exception as e:
            if stand_in_gap(e):
                aborted = True
                res["unsupported"].append(f"the check does not know {type(e).__name__}: {e}"[:300])
            else:
                exc = e
                exc_tb = traceback.format_exc()[-1200:]
        finally:
            core.set_cur(None)
        res["paths"] += 1
        if aborted:
            res["path_aborts"] += 1
        obls = t.obligations
        if obls or exc is not None:
            res["checked_paths"] += 1
            base = path.cons
            if exc is not None:
                label = f"exception:{type(exc).__name__}"
                r, s = query(base, q_timeout)
                res["obligations"] += 1
                if r == z3.unsat:
                    res["discharged"] += 1
                elif r == z3.sat:
                    nv = len(res["violations"])
                    handle_sat(path, base, label, s, "exception")
                    if len(res["violations"]) > nv:
                        res["violations"][-1]["symbolic_exception"] = exc_tb
                    elif res["spurious"] and res["spurious"][-1]["label"] == label:
                        res["spurious"][-1]["symbolic_exception"] = exc_tb
                else:
                    s2 = slice_hunt(path, base)
                    if s2 is not None:
                        handle_sat(path, base, label, s2, "exception")
                    else:
                        concolic(path)
                    tb = [f for f in traceback.extract_tb(exc.__traceback__) if core_not(f.filename)]
                    loc = f" @ {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
                    res["inconclusive"].append(label + " " + str(exc)[:80] + loc)
                    if os.environ.get("VERIF_DEBUG"):
                        print("INC-TRACE", [c for c, _ in path.trace], exc_tb[-500:], file=sys.stderr)
            for lab, _, _ in obls:
                res["labels"][lab] = res["labels"].get(lab, 0) + 1
            res["obligations"] += len(obls)
            todo = []
            conds = [e for (_, e, _) in obls if not z3.is_true(z3.simplify(e))]
            if not conds:
                res["discharged"] += len(obls)
                r = z3.unsat if obls else None
            else:
                r, s = query(base + [z3.Or([z3.Not(c) for c in conds])], q_timeout if len(conds) == 1 else q_timeout)
                if r == z3.unsat:
                    res["discharged"] += len(obls)
                else:
                    todo = obls
            facts = []
            for lab, ex, mg in todo:
                if time.time() > o.deadline + 60:
                    res["inconclusive"].append(lab + " (deadline)")
                    continue
                if z3.is_true(z3.simplify(ex)):
                    res["discharged"] += 1
                    continue
                if (lab,) in seen_viol:
                    continue
                r, s = query(base + facts + [z3.Not(ex)], q_timeout)
                if r != z3.unsat and not ex.eq(mg):
                    r, s = query(base + facts + [z3.Not(mg)], q_timeout)
                if r == z3.unsat:
                    res["discharged"] += 1
                    facts.append(mg if not ex.eq(mg) else ex)
                    continue
                if r == z3.sat:
                    handle_sat(path, base + [z3.Not(mg)], lab, s, "assertion")
                else:
                    s2 = slice_hunt(path, base + [z3.Not(mg)])
                    if s2 is not None:
                        handle_sat(path, base + [z3.Not(mg)], lab, s2, "assertion(slice)")
                    else:
                        concolic(path)
                    if not any(v["label"] == lab for v in res["violations"]):
                        res["inconclusive"].append(f"{lab} {[c for c, _ in path.trace][:40]}")
            # reachability witness: some checked path is really satisfiable
            if not res["witness"] and exc is None and res.get("witness_tries", 0) < 6:
                res["witness_tries"] = res.get("witness_tries", 0) + 1
                r, s = query(base, min(q_timeout, 3000))
                if r == z3.unknown:
                    s = slice_hunt(path, list(base))
                    r = z3.sat if s is not None else r
                if r == z3.sat:
                    res["witness"] = True
                    ins = model_inputs(path, s.model())
                    out = rep.run(h.name, case_idx, ins, tier)
                    res["samples"].append(dict(inputs=ins, concrete_checks=out.get("done"),
                                               failures=out.get("failures"), exception=out.get("exception"),
                                               branch_trace=[c for c, _ in path.trace][:40]))
        # next path
        tr = path.trace
        # decisions of aborted paths are included too
        i = len(tr) - 1
        while i >= 0 and not tr[i][1]:
            i -= 1
        if i < 0:
            break
        prefix = tr[:i] + [(tr[i][1][0], tr[i][1][1:])]
    res["truncated"] = res["truncated"] or o.truncated
    res["spurious_total"] = sum(spurious_count.values())
    res["stats"] = o.stats
    res["wall_s"] = time.time() - start
    rep.close()
    return res


def core_not(fn):
    return os.sep + "symx" + os.sep not in fn
