"""Harness contexts: the same harness function runs symbolically (every path,
claims decided by the solver) and concretely (replay on the real library)."""
import math
import os
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import arrays, core, proxy
from .arrays import SymArray, is_arr, wrap
from .core import (FPC, SymBool, SymNum, bexpr, eng, is_sym, s_abs, s_add, s_and, s_eq, s_ge,
                   s_gt, s_isnan, s_ite, s_le, s_lt, s_ne, s_not, s_or, s_sub)
from .proxy import ENV

TOL_SYM = 1e-6      # a symbolic violation must exceed this ...
TOL_CONC = 1e-8     # ... and a concrete replay this


class Skip(Exception):
    """conc mode: the model does not satisfy an assumption after rounding"""


class Cond:
    __slots__ = ("exact", "loose")

    def __init__(self, exact, loose=None):
        self.exact = exact
        self.loose = exact if loose is None else loose


def _cond(x):
    if isinstance(x, Cond):
        return x
    if is_arr(x):
        x = arrays.FUNCS["all"](x)
    if isinstance(x, z3.BoolRef):
        return Cond(x)
    if type(x) is SymBool:
        return Cond(x.e)
    if type(x) is SymNum:
        return Cond(bexpr(s_ne(x, 0)))
    return Cond(z3.BoolVal(bool(x)))


def scalars(x):
    """flat list of the scalars of an array-like"""
    if is_arr(x):
        return x._a.reshape(-1).tolist()
    if isinstance(x, np.ndarray):
        return x.reshape(-1).tolist()
    if isinstance(x, (list, tuple)):
        r = []
        for v in x:
            r += scalars(v)
        return r
    return [x]


def shape_of(x):
    if is_arr(x) or isinstance(x, np.ndarray):
        return tuple(x.shape)
    if isinstance(x, (list, tuple)):
        return wrap(x).shape
    if getattr(type(x), "_masked", False):
        return tuple(x.shape)
    return ()


def rows(x):
    """list of rows (lists of scalars) of a 2-d array"""
    if is_arr(x):
        return [list(r) for r in x._a]
    return [list(r) for r in np.asarray(x)]


class Objective:
    """A recorded objective function.

    fresh: every evaluation returns an unconstrained cost per particle;
    pure: the cost is an (uninterpreted) function of the position and kwargs."""

    def __init__(self, ctx, name="cost", pure=False, theory="f", finite=False, nonan=False, hook=None,
                 script=None):
        self.ctx, self.name, self.pure, self.theory = ctx, name, pure, theory
        self.finite, self.nonan = finite, nonan
        self.calls = []       # (positions rows, costs list, kwargs)
        self.evals = []       # (row, cost)
        self.hook = hook
        self.script = script  # fixed costs per call
        self.__name__ = "objective"

    def row(self, r, kw=None):
        ctx = self.ctx
        if self.pure:
            return ctx.apply(self.name, r, self.theory, self.nonan, self.finite)
        return ctx.number(self.name, self.theory, nonan=self.nonan, finite=self.finite)

    def __call__(self, x, **kw):
        ctx = self.ctx
        snap = rows(x)
        if self.hook:
            self.hook(x, kw)
        if self.script is not None:
            costs = list(self.script[len(self.calls)])
        else:
            costs = [self.row(r, kw) for r in snap]
        self.calls.append((snap, costs, kw))
        self.evals += list(zip(snap, costs))
        return ctx.array(costs, "f")


class Ctx:
    def __init__(self, mode, model=None, funcs=None):
        self.mode = mode
        self.sym = mode == "sym"
        self.model = model or {}
        self.funcs = funcs or {}
        self.claims = []          # (label, Cond|bool)
        self.observed = []
        self.counter = {}
        self.notes = []

    # -- inputs --------------------------------------------------------------
    def _name(self, stem):
        k = self.counter.get(stem, 0)
        self.counter[stem] = k + 1
        return "%s~%d" % (stem, k)

    def number(self, stem, theory, nonan=False, finite=False):
        nm = self._name(stem)
        if theory == "r":
            return self._real(nm)
        return self._fp(nm, core.COST[0] if theory == "f" else theory, nonan, finite)

    def _real(self, nm):
        if not self.sym:
            v = self.model.get(nm)
            return 0.0 if v is None else float(v)
        e = eng()
        v = z3.Real(nm)
        e.vars[nm] = v
        return SymNum(v, "r")

    def _fp(self, nm, sort, nonan, finite):
        if not self.sym:
            v = self.model.get(nm)
            v = 0.0 if v is None else float(v)
            return np.float16(v) if sort == core.FP16 else v
        e = eng()
        v = z3.FP(nm, sort)
        e.vars[nm] = v
        if nonan or finite:
            e.add(z3.Not(z3.fpIsNaN(v)))
        if finite:
            e.add(z3.Not(z3.fpIsInf(v)))
        return SymNum(v, "f")

    def real(self, stem, lo=None, hi=None):
        x = self._real(self._name(stem))
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def fp(self, stem, sort=None, nonan=False, finite=False):
        return self._fp(self._name(stem), core.COST[0] if sort is None else sort, nonan, finite)

    def int(self, stem, lo, hi):
        """lo <= v <= hi"""
        nm = self._name(stem)
        if not self.sym:
            v = self.model.get(nm)
            return int(lo) if v is None else int(v)
        e = eng()
        v = z3.Int(nm)
        e.vars[nm] = v
        e.add(z3.And(v >= lo, v <= hi))
        return SymNum(v, "i")

    def bool(self, stem):
        nm = self._name(stem)
        if not self.sym:
            return bool(self.model.get(nm, False))
        v = z3.Bool(nm)
        eng().vars[nm] = v
        return SymBool(v)

    def choose(self, stem, n):
        """a concrete value 0..n-1, one path each"""
        x = self.int(stem, 0, n - 1)
        if not self.sym:
            return x
        for v in range(n - 1):
            if bool(s_eq(x, v)):
                return v
        return n - 1

    def reals(self, stem, *shape, lo=None, hi=None):
        n = int(np.prod(shape))
        vals = [self.real(stem, lo, hi) for _ in range(n)]
        return self.array(vals, "f", shape)

    def fps(self, stem, *shape, **k):
        n = int(np.prod(shape))
        return self.array([self.fp(stem, **k) for _ in range(n)], "f", shape)

    def array(self, vals, kind=None, shape=None):
        if self.sym:
            w = wrap(vals, kind)
            w = SymArray(w._a.copy(), w.kind)
            return w.reshape(shape) if shape is not None else w
        if kind == "f" and any(isinstance(v, np.float16) for v in vals):
            kind = "h"
        a = np.array(vals, dtype={"f": float, "h": np.float16, "i": np.int64, "b": bool, None: None}[kind])
        return a.reshape(shape) if shape is not None else a

    def ints(self, stem, *shape, lo=0, hi=1):
        n = int(np.prod(shape))
        return self.array([self.int(stem, lo, hi) for _ in range(n)], "i", shape)

    def apply(self, fname, args, theory, nonan=False, finite=False):
        """uninterpreted function of real arguments"""
        if not self.sym:
            tab = self.funcs.get(fname, [])
            best, bd = None, None
            for a, v in tab:
                if len(a) != len(args):
                    continue
                d = max([abs(float(x) - float(y)) for x, y in zip(a, args)] or [0.0])
                if bd is None or d < bd:
                    best, bd = v, d
            if best is not None and bd <= 1e-6:
                return float(best)
            h = math.sin(sum((i + 1) * 12.9898 * float(x) for i, x in enumerate(args)) + 4.1) * 43758.5453
            return (h - math.floor(h)) * 4.0
        e = eng()
        sort = z3.RealSort() if theory == "r" else (core.COST[0] if theory == "f" else theory)
        f = z3.Function(fname, *([z3.RealSort()] * len(args) + [sort]))
        ar = [z3.simplify(core.to_real(a)) for a in args]
        t = f(*ar)
        e.apps.append((fname, ar, t))
        if theory != "r" and (nonan or finite):
            e.add(z3.Not(z3.fpIsNaN(t)))
            if finite:
                e.add(z3.Not(z3.fpIsInf(t)))
        return SymNum(t, "r" if theory == "r" else "f")

    # -- assumptions and claims ------------------------------------------------
    def assume(self, c):
        if self.sym:
            eng().add(_cond(c).exact)
        else:
            ok = bool(np.all(c)) if not isinstance(c, bool) else c
            if not ok:
                raise Skip()

    def claim(self, label, c):
        if self.sym:
            c = _cond(c)
            ex = z3.simplify(c.exact)
            if z3.is_true(ex):
                self.claims.append((label, None))
                return
            lo = ex if c.loose is c.exact else z3.simplify(c.loose)
            self.claims.append((label, Cond(ex, lo)))
        else:
            self.claims.append((label, bool(np.all(c))))

    def observe(self, label, v):
        self.observed.append((self._name("obs:" + label), scalars(v)))

    # -- logic ------------------------------------------------------------------
    def and_(self, *cs):
        cs = _flatc(cs)
        if not self.sym:
            return all(bool(np.all(c)) for c in cs)
        cs = [_cond(c) for c in cs]
        if not cs:
            return Cond(z3.BoolVal(True))
        return Cond(z3.And([c.exact for c in cs]), z3.And([c.loose for c in cs]))

    def or_(self, *cs):
        cs = _flatc(cs)
        if not self.sym:
            return any(bool(np.all(c)) for c in cs)
        cs = [_cond(c) for c in cs]
        if not cs:
            return Cond(z3.BoolVal(False))
        return Cond(z3.Or([c.exact for c in cs]), z3.Or([c.loose for c in cs]))

    def not_(self, c):
        if not self.sym:
            return not bool(np.all(c))
        return Cond(z3.Not(_cond(c).exact))

    def implies(self, a, b):
        if not self.sym:
            return (not bool(np.all(a))) or bool(np.all(b))
        a, b = _cond(a), _cond(b)
        return Cond(z3.Implies(a.exact, b.exact), z3.Implies(a.exact, b.loose))

    def iff(self, a, b):
        if not self.sym:
            return bool(np.all(a)) == bool(np.all(b))
        a, b = _cond(a), _cond(b)
        return Cond(a.exact == b.exact)

    def ite(self, c, a, b):
        if not self.sym:
            return a if bool(c) else b
        c = _cond(c).exact
        return s_ite(core.mkbool(c), a, b)

    # -- relations ----------------------------------------------------------------
    def same(self, a, b):
        """identical value: NaN equals NaN; real arithmetic up to tolerance"""
        if shape_of(a) != shape_of(b):
            return self.and_(False)
        av, bv = scalars(a), scalars(b)
        if not self.sym:
            return all(_conc_same(x, y) for x, y in zip(av, bv))
        return self.and_([_sym_same(x, y) for x, y in zip(av, bv)])

    close = same

    def identical(self, a, b):
        """exact equality (data that is only moved around, never computed)"""
        if shape_of(a) != shape_of(b):
            return self.and_(False)
        av, bv = scalars(a), scalars(b)
        if not self.sym:
            return all((x == y) or (x != x and y != y) for x, y in zip(av, bv))
        return self.and_([_sym_ident(x, y) for x, y in zip(av, bv)])

    def le(self, a, b):
        if not self.sym:
            return a <= b + TOL_CONC * max(1.0, abs(a), abs(b)) if math.isfinite(a) and math.isfinite(b) else a <= b
        if core.has_fp(a, b) or core.nonfinite(a) or core.nonfinite(b):
            return _cond(s_le(a, b))
        return Cond(bexpr(s_le(a, b)), bexpr(s_le(a, s_add(b, TOL_SYM))))

    def ge(self, a, b):
        return self.le(b, a)

    def exactly_le(self, a, b):
        return _cond(s_le(a, b)) if self.sym else a <= b

    def min(self, vals):
        r = vals[0]
        for v in vals[1:]:
            r = self.ite(v < r, v, r)
        return r

    def isnan(self, a):
        return s_isnan(a) if self.sym else (a != a)

    def abs(self, a):
        return s_abs(a) if self.sym else abs(a)


def _flatc(cs):
    r = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            r += _flatc(c)
        elif hasattr(c, "__next__"):
            r += _flatc(list(c))
        else:
            r.append(c)
    return r


def _conc_same(x, y):
    if isinstance(x, complex) or isinstance(y, complex):
        return abs(x - y) <= TOL_CONC * max(1.0, abs(x), abs(y))
    x, y = float(x), float(y)
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= TOL_CONC * max(1.0, abs(x), abs(y))


def _sym_ident(x, y):
    if not is_sym(x) and not is_sym(y):
        x, y = float(x), float(y)
        return Cond(z3.BoolVal(x == y or (x != x and y != y)))
    if core.has_fp(x, y):
        k, a, b = core.pair(x, y)
        return Cond(z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b))))
    return Cond(bexpr(s_eq(x, y)))


def _sym_same(x, y):
    if not is_sym(x) and not is_sym(y):
        return Cond(z3.BoolVal(_conc_same(x, y)))
    if core.has_fp(x, y):
        return _sym_ident(x, y)
    if core.sort_kind(x) in "ib" and core.sort_kind(y) in "ib":
        return Cond(bexpr(s_eq(x, y)))
    if core.nonfinite(x) or core.nonfinite(y):
        return Cond(bexpr(s_eq(x, y)))
    a, b = core.to_real(x), core.to_real(y)
    if a.eq(b):
        return Cond(z3.BoolVal(True))
    d = z3.simplify(a - b, som=True)
    if z3.is_rational_value(d):
        z = d.numerator_as_long() == 0
        big = abs(d.numerator_as_long() / d.denominator_as_long()) > TOL_SYM
        return Cond(z3.BoolVal(z), z3.BoolVal(not big))
    t = z3.RealVal("1/1000000")
    return Cond(a == b, z3.And(d <= t, d >= -t))


# --------------------------------------------------------------------------
# models
# --------------------------------------------------------------------------
def z3_to_py(v):
    """JSON value of a z3 model value"""
    if z3.is_int_value(v):
        return ["i", v.as_long()]
    if z3.is_rational_value(v):
        return ["r", "%d/%d" % (v.numerator_as_long(), v.denominator_as_long())]
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return ["r", "%d/%d" % (a.numerator_as_long(), a.denominator_as_long())]
    if z3.is_true(v):
        return ["b", True]
    if z3.is_false(v):
        return ["b", False]
    if z3.is_fp(v):
        if v.isNaN():
            return ["f", "nan"]
        if v.isInf():
            return ["f", "-inf" if v.isNegative() else "inf"]
        if v.isZero():
            return ["f", "-0x0p+0" if v.isNegative() else "0x0p+0"]
        sig = v.significand_as_long()
        ebits, sbits = v.ebits(), v.sbits()
        bias = 2 ** (ebits - 1) - 1
        ex = v.exponent_as_long(True)
        if v.isSubnormal():
            val = Fraction(sig, 2 ** (sbits - 1)) * Fraction(2) ** (1 - bias)
        else:
            val = (1 + Fraction(sig, 2 ** (sbits - 1))) * Fraction(2) ** (ex - bias)
        val = -val if v.isNegative() else val
        return ["f", float(val).hex()]
    return ["?", str(v)]


def decode(j):
    t, v = j
    if t == "r":
        fr = Fraction(v)
        try:
            return float(fr)
        except OverflowError:
            return math.inf if fr > 0 else -math.inf
    if t == "f":
        return float(v) if v in ("nan", "inf", "-inf") else float.fromhex(v)
    return v


def extract(e, m):
    vals = {n: z3_to_py(m.eval(v, model_completion=True)) for n, v in e.vars.items()}
    funcs = {}
    for fname, ar, t in e.apps:
        funcs.setdefault(fname, []).append(
            [[z3_to_py(m.eval(a, model_completion=True)) for a in ar], z3_to_py(m.eval(t, model_completion=True))])
    return {"vals": vals, "funcs": funcs}


def sym_value(m, x):
    """concrete value of an observed symbolic scalar under a model, or None"""
    if not is_sym(x):
        return float(x) if isinstance(x, (bool, int, float, np.generic)) else None
    v = m.eval(x.e, model_completion=True)
    j = z3_to_py(v)
    if j[0] == "?":
        return None
    return float(decode(j))


def run_conc(fn, params, model, script=False, half=False):
    """run a harness on the real library with the values of a model"""
    vals = {n: decode(j) for n, j in model["vals"].items()}
    funcs = {f: [([decode(a) for a in ar], decode(v)) for ar, v in tab] for f, tab in model["funcs"].items()}
    ENV.reset()
    ENV.mode = "conc"
    ENV.model = vals
    ENV.half = half
    proxy.script_searches(script)
    ctx = Ctx("conc", vals, funcs)
    exc = None
    skipped = False
    try:
        with np.errstate(all="ignore"):
            fn(ctx, **params)
    except Skip:
        skipped = True
    except Exception as ex:
        if isinstance(ex, (AttributeError, NameError, z3.Z3Exception)) and not any(
                "pyswarms" + os.sep in f.filename for f in traceback.extract_tb(ex.__traceback__)):
            # the harness itself asked for something that is not there: no statement about the library
            return {"error": "harness: %s: %s" % (type(ex).__name__, ex)}
        exc = "%s: %s" % (type(ex).__name__, str(ex)[:300])
        tb = traceback.format_exc()[-1500:]
    claims = {}
    for l, ok in ctx.claims:
        claims[l] = claims.get(l, True) and bool(ok)
    obs = {}
    for l, v in ctx.observed:
        obs[l] = [None if isinstance(x, (str, type(None))) else repr(float(x)) for x in v]
    return {"claims": claims, "exc": exc, "skipped": skipped, "observed": obs,
            "tb": tb if exc else None}
