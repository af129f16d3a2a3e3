"""Symbolic scalars and the path-exploring engine.

Real CPython runs the real pyswarms functions; the values flowing through them
are the classes of this module.  Every data-dependent branch (``bool()`` of a
symbolic truth value) asks the SMT solver which outcomes are possible and the
harness is re-executed once per feasible path.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)

FP64 = z3.FPSort(11, 53)
FPC = z3.FPSort(4, 6)   # costs: enough values for every order pattern of comparison-only code
FP32 = z3.FPSort(8, 24)
FP16 = z3.FPSort(5, 11)
RNE = z3.RNE()


class EngineStop(BaseException):
    """Base of everything that must not be swallowed by code under test."""


class Unsupported(EngineStop):
    """An operation of the code under test has no symbolic model."""


class Infeasible(EngineStop):
    """The assumptions of the current path are contradictory."""


class TooNarrow(EngineStop):
    """A cost met a number its narrow format does not have; the task is run again with a wider one."""


class Endless(EngineStop):
    """One path runs far longer than any other: it may never end."""


class Budget(EngineStop):
    """A stated bound (paths, branches, time) was exceeded."""


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------
_SYMS, _KEEP, _FPT = {}, [], {}


def symbols(t):
    """names of the uninterpreted constants and functions of a term"""
    i = t.get_id()
    r = _SYMS.get(i)
    if r is not None:
        return r
    acc, seen, st, fp = set(), set(), [t], False
    while st:
        u = st.pop()
        k = u.get_id()
        if k in seen:
            continue
        seen.add(k)
        q = _SYMS.get(k)
        if q is not None:
            acc |= q
            fp = fp or _FPT[k]
            continue
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(u.decl().name())
            if not fp and (z3.is_fp(u) or z3.is_fprm(u)):
                fp = True
            st += u.children()
    r = frozenset(acc)
    _SYMS[i], _FPT[i] = r, fp
    _KEEP.append(t)
    return r


def has_fp_terms(t):
    symbols(t)
    return _FPT[t.get_id()]


_FPOPS = {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_FMA,
          z3.Z3_OP_FPA_SQRT, z3.Z3_OP_FPA_REM}


def abstracted(fs):
    """the formulas with every IEEE operation replaced by a fresh value that
    only obeys a few facts true of that operation, or None if there is none;
    unsatisfiable implies the original is"""
    sub, facts, done = [], [], set()

    def visit(t):
        st = [(t, False)]
        while st:
            u, up = st.pop()
            if up:
                if z3.is_app(u) and u.decl().kind() in _FPOPS:
                    v = z3.FP("abs!%d" % len(sub), u.sort())
                    sub.append((u, v))
                    facts.extend(op_facts(u, v))
                continue
            if u.get_id() in done:
                continue
            done.add(u.get_id())
            st.append((u, True))
            st += [(c, False) for c in u.children()]
    for f in fs:
        visit(f)
    if not sub:
        return None
    sums = [(u, v) for u, v in sub if u.decl().kind() == z3.Z3_OP_FPA_ADD]
    for (u, v) in sums[:8]:             # rounding is monotone
        for (x, y) in sums[:8]:
            if u is not x and u.sort() == x.sort():
                for p, q in ((1, 2), (2, 1)):
                    if u.arg(1).eq(x.arg(p)) or u.arg(2).eq(x.arg(q)):
                        facts.append(z3.Implies(z3.And(z3.fpLEQ(u.arg(1), x.arg(p)), z3.fpLEQ(u.arg(2), x.arg(q))),
                                                z3.Or(z3.fpLEQ(v, y), z3.fpIsNaN(v), z3.fpIsNaN(y))))
    sub.reverse()                      # outermost first
    return [z3.substitute(f, *sub) for f in fs + facts]


def op_facts(u, t):
    k = u.decl().kind()
    if k in (z3.Z3_OP_FPA_FMA, z3.Z3_OP_FPA_SQRT, z3.Z3_OP_FPA_REM):
        return []
    _, a, b = u.children()
    nan, inf, zero = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero
    some = z3.Or(nan(a), nan(b))
    A, B, T = z3.fpAbs(a), z3.fpAbs(b), z3.fpAbs(t)
    s = u.sort()
    r = []
    if k in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB):
        r.append(nan(t) == z3.Or(some, z3.And(inf(a), inf(b), z3.fpIsNegative(a) == z3.fpIsNegative(b)
                                              if k == z3.Z3_OP_FPA_SUB else
                                              z3.fpIsNegative(a) != z3.fpIsNegative(b))))
        big = z3.FPVal(256.0, s)
        r.append(z3.Implies(z3.And(z3.fpLEQ(A, big), z3.fpLEQ(B, big)), z3.fpLEQ(T, z3.FPVal(512.0, s))))
        c = b if k == z3.Z3_OP_FPA_SUB else z3.fpNeg(b)
        r.append(z3.Implies(z3.And(z3.Not(some), z3.Not(inf(a)), z3.Not(inf(b))), z3.And(
            z3.fpLT(a, c) == z3.fpLT(t, z3.FPVal(0.0, s)), z3.fpEQ(a, c) == zero(t))))
    elif k == z3.Z3_OP_FPA_MUL:
        r.append(nan(t) == z3.Or(some, z3.And(inf(a), zero(b)), z3.And(zero(a), inf(b))))
        one = z3.FPVal(1.0, s)
        r.append(z3.Implies(z3.fpLEQ(A, one), z3.Or(z3.fpLEQ(T, B), nan(t))))
        r.append(z3.Implies(z3.fpLEQ(B, one), z3.Or(z3.fpLEQ(T, A), nan(t))))
    elif k == z3.Z3_OP_FPA_DIV:
        r.append(nan(t) == z3.Or(some, z3.And(inf(a), inf(b)), z3.And(zero(a), zero(b))))
        r.append(z3.Implies(z3.And(z3.fpLEQ(A, B), z3.Not(nan(t))), z3.fpLEQ(T, z3.FPVal(1.0, s))))
    return r


def _fp_solver():
    return z3.Then("simplify", "propagate-values", "fpa2bv", "simplify", "solve-eqs", "smt").solver()


class Stats(dict):
    def bump(self, k, n=1):
        self[k] = self.get(k, 0) + n


class Engine:
    def __init__(self, query_timeout_ms=60000, max_paths=20000,
                 max_branches=4000, deadline=None):
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.max_branches = max_branches
        self.deadline = deadline
        self.stats = Stats(queries=0, solver_s=0.0, paths=0, branches=0,
                           forks=0, unknown=0, sat=0, unsat=0,
                           infeasible_paths=0)
        self.base = []        # facts that hold on every path (PI bounds, ...)
        self.worklist = [()]
        self.cache = {}
        self._reset_path(())

    # -- path state ------------------------------------------------------
    def _reset_path(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.pc = []
        self.pc_vars = []
        self.memo = {}
        self.counter = {}
        self.vars = {}          # name -> z3 const   (inputs, for models)
        self.claims = []        # (label, z3 bool)
        self.observed = []      # (label, [values])
        self.path_unknown = False
        self.apps = []
        self.ufs = {}

    def fresh_name(self, stem):
        k = self.counter.get(stem, 0)
        self.counter[stem] = k + 1
        return "%s#%d" % (stem, k)

    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self._push(c)

    def _push(self, c):
        self.pc.append(c)
        self.pc_vars.append(symbols(c))

    def slice(self, *goals):
        """the constraints that share symbols, transitively, with the goals;
        the others cannot change the verdict while the path is feasible"""
        if not goals:
            return list(self.base) + list(self.pc)
        vs = set()
        for g in goals:
            vs |= symbols(g)
        todo = list(zip(self.base, [symbols(b) for b in self.base])) + list(zip(self.pc, self.pc_vars))
        got = []
        while True:
            rest, hit = [], False
            for c, sy in todo:
                if not vs.isdisjoint(sy):
                    got.append(c)
                    vs |= sy
                    hit = True
                else:
                    rest.append((c, sy))
            todo = rest
            if not hit:
                return got

    def check(self, *goals):
        return self.solve(goals)[0]

    def refute(self, goal):
        """like check, for goals expected to be impossible: try first with only
        the constraints that speak of nothing but the goal's own symbols"""
        vs = symbols(goal)
        full = self.slice(goal)
        few = [c for c in full if symbols(c) <= vs]
        if len(few) < len(full):
            if self.solve([goal], some=few)[0] == "unsat":
                return "unsat"
        if any(has_fp_terms(f) for f in full + [goal]):
            ab = abstracted(full + [goal])
            if ab is not None and self.solve(ab[-1:], some=ab[:-1])[0] == "unsat":
                return "unsat"
        return self.check(goal)

    def solve(self, goals, want_model=False, some=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget of this task used up")
        fs = (self.slice(*goals) if some is None else some) + list(goals)
        key = frozenset(f.get_id() for f in fs)
        if not want_model and key in self.cache and self.cache[key][0] != "unknown":
            return self.cache[key][0], None
        t = time.time()
        res, mod = "unknown", None
        for mk in (_fp_solver, z3.Solver) if any(has_fp_terms(f) for f in fs) else (z3.Solver,):
            try:
                s = mk()
                s.set("timeout", self.query_timeout_ms if some is None else min(20000, self.query_timeout_ms))
                s.add(fs)
                res = str(s.check())
                if res == "sat" and want_model:
                    mod = s.model()
            except z3.Z3Exception:
                res = "unknown"
            self.stats["queries"] += 1
            if res != "unknown":
                break
        self.stats["solver_s"] += time.time() - t
        self.stats[res] = self.stats.get(res, 0) + 1
        if len(self.cache) < 20000:
            self.cache[key] = (res, fs)
        return res, mod

    # -- branching ---------------------------------------------------------
    def branch(self, cond):
        """Decide a symbolic condition, forking when both ways are possible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats["branches"] += 1
        k = len(self.trail)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trail.append(d)
            self._push(cond if d else z3.Not(cond))
            return d
        if k >= self.max_branches:
            raise Endless("more than %d branches on one path" % self.max_branches)
        rt = self.feasible(cond)
        if rt == "unsat":
            d = False
        else:
            rf = self.feasible(z3.Not(cond))
            if rf == "unsat":
                d = True
            else:
                d = True
                self.worklist.append(tuple(self.trail) + (False,))
                self.stats["forks"] += 1
            if rt == "unknown" or rf == "unknown":
                self.path_unknown = True
        self.trail.append(d)
        self._push(cond if d else z3.Not(cond))
        return d

    def feasible(self, cond):
        """a quicker check for branches; an undecided branch is explored"""
        keep, self.query_timeout_ms = self.query_timeout_ms, min(self.query_timeout_ms, 10000)
        try:
            return self.check(cond)
        finally:
            self.query_timeout_ms = keep

    def implied(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(z3.Not(cond)) == "unsat"

    # -- exploration -------------------------------------------------------
    def explore(self, fn, on_path, on_stop=None):
        """Run fn() once per feasible path; on_path(result, exc) at each end."""
        global ENGINE
        prev, ENGINE = ENGINE, self
        try:
            self.worklist = [()]
            while self.worklist:
                if self.stats["paths"] >= self.max_paths:
                    raise Budget("more than %d paths" % self.max_paths)
                prefix = self.worklist.pop()
                self._reset_path(prefix)
                try:
                    res, exc = fn(), None
                except Infeasible:
                    self.stats["infeasible_paths"] += 1
                    continue
                except (Unsupported, Endless) as e:
                    if on_stop is None:
                        raise
                    self.stats["stopped_paths"] = self.stats.get("stopped_paths", 0) + 1
                    on_stop(e)
                    continue
                except EngineStop:
                    raise
                except Exception as e:  # raised by the code under test
                    res, exc = None, e
                self.stats["paths"] += 1
                on_path(res, exc)
        finally:
            ENGINE = prev


ENGINE = None


def eng():
    if ENGINE is None:
        raise RuntimeError("no engine active")
    return ENGINE


# --------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------
PI = z3.Real("PI")
EE = z3.Real("E")
PI_FACTS = [PI > z3.RealVal("3.141592653589793"), PI < z3.RealVal("3.141592653589794"),
            EE > z3.RealVal("2.718281828459045"), EE < z3.RealVal("2.718281828459046")]
_CONST_CACHE = {}


def simple_fraction(c):
    """The simplest rational whose nearest double is c."""
    fr = Fraction(c)
    for lim in (1, 10, 1000, 10 ** 5, 10 ** 7):
        s = fr.limit_denominator(lim)
        if float(s) == c:
            return s
    return fr


def realval(c):
    """Lift a concrete finite Python number to a z3 real.

    A double literal stands for the simplest rational that rounds to it (so
    0.1 is 1/10 and 1/3. is 1/3); multiples of pi and e become multiples of
    symbolic constants.
    """
    if isinstance(c, (bool, np.bool_)):
        c = int(c)
    if isinstance(c, (int, np.integer)):
        return z3.RealVal(int(c))
    c = float(c)
    v = _CONST_CACHE.get(c)
    if v is not None:
        return v
    fr = simple_fraction(c)
    v = None
    if fr.denominator > 10 ** 5 and abs(c) > 1e-300:
        for base, sym in ((math.pi, PI), (math.e, EE)):
            q = Fraction(c / base).limit_denominator(64)
            if q != 0 and abs(float(q) * base - c) <= 2 * math.ulp(c):
                v = z3.RealVal(str(q)) * sym
                break
    if v is None:
        v = z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))
    _CONST_CACHE[c] = v
    return v


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------
CONC = (bool, int, float, np.bool_, np.integer, np.floating)


def is_sym(x):
    return type(x) is SymNum or type(x) is SymBool


def is_num(x):
    return type(x) is SymNum or isinstance(x, CONC)


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return np.bool_

    @property
    def dtype(self):
        return np.dtype(bool)

    def __bool__(self):
        return eng().branch(self.e)

    def __hash__(self):
        return self.e.hash()

    def __index__(self):
        return 1 if eng().branch(self.e) else 0

    __int__ = __index__

    def __float__(self):
        return 1.0 if eng().branch(self.e) else 0.0

    def __invert__(self):
        return s_not(self)

    def __and__(self, o):
        return _arr_or(self, o, "logical_and", s_and)

    __rand__ = __and__

    def __or__(self, o):
        return _arr_or(self, o, "logical_or", s_or)

    __ror__ = __or__

    def __xor__(self, o):
        return _arr_or(self, o, "logical_xor", s_xor)

    __rxor__ = __xor__

    def __eq__(self, o):
        return _arr_or(self, o, "equal", s_eq)

    def __ne__(self, o):
        return _arr_or(self, o, "not_equal", s_ne)

    def __lt__(self, o):
        return _arr_or(self, o, "less", s_lt)

    def __gt__(self, o):
        return _arr_or(self, o, "greater", s_gt)

    def __le__(self, o):
        return _arr_or(self, o, "less_equal", s_le)

    def __ge__(self, o):
        return _arr_or(self, o, "greater_equal", s_ge)

    def __mul__(self, o):
        return _arr_or(self, o, "multiply", s_mul)

    def __rmul__(self, o):
        return _arr_or(self, o, "multiply", s_mul)

    def __add__(self, o):
        return _arr_or(self, o, "add", s_add)

    __radd__ = __add__

    def __sub__(self, o):
        return _arr_or(self, o, "subtract", s_sub)

    def __rsub__(self, o):
        return _arr_ror(self, o, "subtract", s_sub)

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def copy(self):
        return self

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    all = any

    def astype(self, dt, **k):
        return cast_scalar(self, kind_of_dtype(dt))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arrays
        return arrays.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arrays
        return arrays.function_dispatch(func, args, kwargs)


class SymNum:
    """A symbolic number: kind 'i' (z3 Int), 'r' (z3 Real) or 'f' (z3 FP)."""
    __slots__ = ("e", "kind", "iter_gen")
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e, kind):
        self.e = e
        self.kind = kind

    @property
    def __class__(self):
        return int if self.kind == "i" else np.float64

    @property
    def dtype(self):
        return np.dtype(np.int64) if self.kind == "i" else np.dtype(float)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        r = s_ne(self, 0)
        return bool(r)

    def __index__(self):
        if self.kind != "i":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return concretize_int(self)

    def __int__(self):
        if self.kind == "i":
            return concretize_int(self)
        raise Unsupported("int() of a symbolic real")

    def __float__(self):
        raise Unsupported("float() of a symbolic number")

    def __round__(self, n=None):
        if n:
            raise Unsupported("round(x, n)")
        r = s_rint(self)
        return cast_scalar(r, "i") if n is None else r

    def __floor__(self):
        return cast_scalar(s_floor(self), "i")

    def __ceil__(self):
        return cast_scalar(s_ceil(self), "i")

    def __trunc__(self):
        return cast_scalar(s_trunc(self), "i")

    def __repr__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def astype(self, dt, **k):
        return cast_scalar(self, kind_of_dtype(dt))

    def min(self, *a, **k):
        return self

    max = sum = mean = squeeze = ravel_ = min

    def reshape(self, *s):
        from . import arrays
        return arrays.wrap(self).reshape(*s)

    def conjugate(self):
        return self

    def any(self, *a, **k):
        return s_ne(self, 0)

    all = any

    def argmin(self, *a, **k):
        return 0

    argmax = argmin

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = s_maximum(r, lo)
        if hi is not None:
            r = s_minimum(r, hi)
        return r

    def round(self, *a):
        return s_rint(self)

    def is_integer(self):
        return s_eq(s_floor(self), self)

    def __getitem__(self, idx):
        from . import arrays
        return arrays.wrap(self)[idx]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arrays
        return arrays.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arrays
        return arrays.function_dispatch(func, args, kwargs)


def _is_arr(o):
    return isinstance(o, (np.ndarray, list)) or type(o).__name__ == "SymArray"


def _arr_or(a, b, ufname, f):
    if _is_arr(b):
        if type(b).__name__ == "SymArray":
            return NotImplemented
        from . import arrays
        return arrays.ufunc_call(ufname, a, b)
    if isinstance(b, CONC) or is_sym(b):
        return f(a, b)
    if isinstance(b, complex):
        raise Unsupported("complex numbers")
    return NotImplemented


def _arr_ror(a, b, ufname, f):
    if _is_arr(b):
        from . import arrays
        return arrays.ufunc_call(ufname, b, a)
    if isinstance(b, CONC) or is_sym(b):
        return f(b, a)
    if isinstance(b, complex):
        raise Unsupported("complex numbers")
    return NotImplemented


def _install():
    ops = {
        "add": "s_add", "sub": "s_sub", "mul": "s_mul", "truediv": "s_div",
        "floordiv": "s_floordiv", "mod": "s_mod", "pow": "s_pow",
    }
    names = {"add": "add", "sub": "subtract", "mul": "multiply",
             "truediv": "true_divide", "floordiv": "floor_divide",
             "mod": "remainder", "pow": "power"}

    def mk(op):
        fn, uf = ops[op], names[op]

        def fwd(self, o, mod=None):
            return _arr_or(self, o, uf, globals()[fn])

        def rev(self, o, mod=None):
            return _arr_ror(self, o, uf, globals()[fn])

        return fwd, rev

    for op in ops:
        f, r = mk(op)
        setattr(SymNum, "__%s__" % op, f)
        setattr(SymNum, "__r%s__" % op, r)
    cmps = {"lt": ("less", "s_lt"), "le": ("less_equal", "s_le"),
            "gt": ("greater", "s_gt"), "ge": ("greater_equal", "s_ge"),
            "eq": ("equal", "s_eq"), "ne": ("not_equal", "s_ne")}

    def mkc(uf, fn):
        def cmp(self, o):
            if o is None:
                return fn == "s_ne"
            return _arr_or(self, o, uf, globals()[fn])
        return cmp

    for c, (uf, fn) in cmps.items():
        setattr(SymNum, "__%s__" % c, mkc(uf, fn))
    SymNum.__neg__ = lambda self: s_neg(self)
    SymNum.__pos__ = lambda self: self
    SymNum.__abs__ = lambda self: s_abs(self)


def kind_of_dtype(dt):
    if dt in (int, "int", "i8", "int64", "int32"):
        return "i"
    if dt in (bool, "bool", np.bool_):
        return "b"
    if dt in (float, "float", "float64"):
        return "f"
    if dt is object or dt == "object":
        return "O"
    try:
        k = np.dtype(dt).kind
    except TypeError:
        # injected int/float/bool types
        nm = getattr(dt, "__name__", str(dt))
        return {"int": "i", "float": "f", "bool": "b"}.get(nm, "O")
    return {"i": "i", "u": "i", "f": "f", "b": "b"}.get(k, "O")


# -- lifting -----------------------------------------------------------------
def _np(x):
    """Concrete operand as a numpy scalar (numpy arithmetic semantics)."""
    if isinstance(x, (bool, np.bool_)):
        return np.bool_(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    return np.float64(x)


def conc_float(x):
    return type(x) is not SymNum and isinstance(x, (float, np.floating))


def sort_kind(x):
    if type(x) is SymNum:
        return x.kind
    if type(x) is SymBool:
        return "b"
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "r"
    raise Unsupported("not a number: %r" % (type(x),))


def to_real(x):
    t = type(x)
    if t is SymNum:
        if x.kind == "r":
            return x.e
        if x.kind == "i":
            return z3.ToReal(x.e)
        raise Unsupported("mixing IEEE and real-valued symbols")
    if t is SymBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    return realval(x)


def to_int(x):
    t = type(x)
    if t is SymNum:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


COST = [FPC, False]   # format of costs; whether every constant must fit it


def fits_sort(v, sort):
    if v != v or v in (float("inf"), float("-inf"), 0.0):
        return True
    m, e = math.frexp(abs(v))
    p, emax = sort.sbits(), (1 << (sort.ebits() - 1)) - 1
    return -emax + 2 <= e <= emax + 1 and float(m * (1 << p)).is_integer()


def to_fp(x, sort):
    t = type(x)
    if COST[1] and sort == COST[0] and t not in (SymNum, SymBool):
        v = float(x)
        if not fits_sort(v, sort) and (sort == FPC or not 1e-30 < abs(v) < 1e30):
            raise TooNarrow("%r" % v)
    if t is SymNum:
        if x.kind == "f":
            return x.e
        raise Unsupported("mixing IEEE and real-valued symbols")
    if t is SymBool:
        return z3.If(x.e, z3.FPVal(1.0, sort), z3.FPVal(0.0, sort))
    return z3.FPVal(float(x), sort)


def to_bool(x):
    if type(x) is SymBool:
        return x.e
    if type(x) is SymNum:
        r = s_ne(x, 0)
        return r.e if type(r) is SymBool else z3.BoolVal(bool(r))
    return z3.BoolVal(bool(x))


def bexpr(x):
    """z3 Bool of anything truth-like."""
    if isinstance(x, z3.BoolRef):
        return x
    return to_bool(x)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mknum(e, kind):
    if kind == "i" and z3.is_int_value(e):
        return e.as_long()
    return SymNum(e, kind)


def pair(a, b):
    """Common theory of two operands: (kind, ea, eb) with at least one symbolic."""
    ka, kb = sort_kind(a), sort_kind(b)
    if "f" in (ka, kb):
        sort = (a if ka == "f" else b).e.sort()
        return "f", to_fp(a, sort), to_fp(b, sort)
    if "r" in (ka, kb):
        return "r", to_real(a), to_real(b)
    return "i", to_int(a), to_int(b)


def nonfinite(x):
    return conc_float(x) and not math.isfinite(x)


def has_fp(a, b):
    return (type(a) is SymNum and a.kind == "f") or (type(b) is SymNum and b.kind == "f")


def concretize_int(x):
    e = eng()
    if not is_sym(x):
        return int(x)
    ex = x.e if type(x) is SymNum else to_int(x)
    ex = z3.simplify(ex)
    if z3.is_int_value(ex):
        return ex.as_long()
    k = 0
    while True:
        k += 1
        if k > 200:
            raise Budget("integer with more than 200 possible values")
        r, m = e.solve([z3.Or(ex >= 0, ex < 0)], True)
        if r != "sat":
            raise Unsupported("cannot concretise an integer")
        v = m.eval(ex, model_completion=True).as_long()
        # deterministic under re-execution: enumerate small values first
        v = _canonical_value(e, ex, v)
        if e.branch(ex == v):
            return v


def _canonical_value(e, ex, v):
    """smallest feasible value near 0, so that re-execution is deterministic"""
    for c in range(-2, 12):
        if c == v:
            return v
        if e.check(ex == c) == "sat":
            return c
    return v


# -- arithmetic --------------------------------------------------------------
def _sp(x):
    return z3.simplify(x)


def s_add(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return _np(a) + _np(b)
    if not has_fp(a, b):
        if nonfinite(a):
            return np.float64(a)
        if nonfinite(b):
            return np.float64(b)
    k, x, y = pair(a, b)
    if k == "f":
        return SymNum(z3.fpAdd(RNE, x, y), "f")
    return mknum(_sp(x + y), k)


def s_neg(a):
    if not is_sym(a):
        return -_np(a) if not isinstance(a, (bool, np.bool_)) else -int(a)
    if type(a) is SymBool:
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    if a.kind == "f":
        return SymNum(z3.fpNeg(a.e), "f")
    return mknum(_sp(-a.e), a.kind)


def s_sub(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            a, b = _np(a), _np(b)
            if isinstance(a, np.bool_):
                a = int(a)
            if isinstance(b, np.bool_):
                b = int(b)
            return a - b
    if not has_fp(a, b):
        if nonfinite(a):
            return np.float64(a)
        if nonfinite(b):
            return np.float64(-b)
    k, x, y = pair(a, b)
    if k == "f":
        return SymNum(z3.fpSub(RNE, x, y), "f")
    return mknum(_sp(x - y), k)


def _sign_case(x, pos, neg, zero):
    """fork on the sign of a real/int symbol"""
    if bool(s_gt(x, 0)):
        return pos
    if bool(s_lt(x, 0)):
        return neg
    return zero


def s_mul(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return _np(a) * _np(b)
    if type(a) is SymBool and type(b) is not SymBool and not is_sym(b):
        return s_ite(a, b, b * 0 if not nonfinite(b) else np.nan)
    if type(b) is SymBool and type(a) is not SymBool and not is_sym(a):
        return s_mul(b, a)
    if not has_fp(a, b):
        for p, q in ((a, b), (b, a)):
            if nonfinite(p):
                if math.isnan(p):
                    return np.float64(np.nan)
                return _sign_case(q, np.float64(p), np.float64(-p), np.float64(np.nan))
    k, x, y = pair(a, b)
    if k == "f":
        return SymNum(z3.fpMul(RNE, x, y), "f")
    return mknum(_sp(x * y), k)


def s_div(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(b)
    if has_fp(a, b):
        k, x, y = pair(a, b)
        return SymNum(z3.fpDiv(RNE, x, y), "f")
    if nonfinite(a):
        if math.isnan(a):
            return np.float64(np.nan)
        return _sign_case(b, np.float64(a), np.float64(-a), np.float64(a))
    if nonfinite(b):
        return np.float64(np.nan) if math.isnan(b) else 0.0
    if not is_sym(b):
        if b == 0:
            return _sign_case(a, np.float64(np.inf), np.float64(-np.inf), np.float64(np.nan))
        return SymNum(_sp(to_real(a) / realval(b)), "r")
    if bool(s_eq(b, 0)):
        if not is_sym(a):
            with np.errstate(all="ignore"):
                return np.float64(a) / np.float64(0.0)
        return _sign_case(a, np.float64(np.inf), np.float64(-np.inf), np.float64(np.nan))
    return SymNum(_sp(to_real(a) / to_real(b)), "r")


def _divmod_real(a, b):
    """(q, r) of floor division over reals/ints; memoised on normal forms."""
    e = eng()
    ints = sort_kind(a) in "ib" and sort_kind(b) in "ib"
    if not is_sym(b):
        if ints:
            q = SymNum(_sp(to_int(a) / z3.IntVal(int(b))), "i") if int(b) > 0 else None
            if q is None:
                raise Unsupported("integer modulo by a negative constant")
            return q, mknum(_sp(to_int(a) % z3.IntVal(int(b))), "i")
        A, B = to_real(a), realval(b)
        q = z3.ToReal(z3.ToInt(A / B))
        return SymNum(_sp(q), "r"), SymNum(_sp(A - B * q), "r")
    A, B = to_real(a), to_real(b)
    A = z3.simplify(A, som=True)
    B = z3.simplify(B, som=True)
    key = ("divmod", A.get_id(), B.get_id())
    hit = e.memo.get(key)
    if hit is None:
        q = z3.Int(e.fresh_name("modq"))
        r = z3.Real(e.fresh_name("modr"))
        neg = not bool(s_gt(SymNum(B, "r"), 0))
        e.add(A == z3.ToReal(q) * B + r)
        if neg:
            e.add(z3.And(r <= 0, r > B))
        else:
            e.add(z3.And(r >= 0, r < B))
            # helpful consequences (sound): magnitude relations
            e.add(z3.Implies(z3.And(A >= 0, A < B), z3.And(q == 0, r == A)))
            e.add(z3.Implies(A >= 0, r <= A))
        hit = (A, B, SymNum(z3.ToReal(q), "r"), SymNum(r, "r"))
        e.memo[key] = hit
    if ints:
        return cast_scalar(hit[2], "i"), cast_scalar(hit[3], "i")
    return hit[2], hit[3]


def s_mod(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return np.mod(_np(a), _np(b))
    if has_fp(a, b):
        return _fp_mod(a, b)
    if nonfinite(a) or nonfinite(b):
        raise Unsupported("modulo with infinities")
    if bool(s_eq(b, 0)):
        return np.float64(np.nan) if sort_kind(a) == "r" or sort_kind(b) == "r" else 0
    return _divmod_real(a, b)[1]


def _fp_mod(a, b):
    """IEEE np.mod by contract: for a >= 0, b > 0 finite the exact remainder r
    satisfies 0 <= r < b and r <= a (r is representable)."""
    e = eng()
    k, x, y = pair(a, b)
    zero = z3.FPVal(0.0, x.sort())
    x, y = z3.simplify(x), z3.simplify(y)
    bad = z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x), z3.fpIsNaN(y), z3.fpEQ(y, zero))
    if e.branch(bad):
        return SymNum(z3.fpNaN(x.sort()), "f")
    if e.branch(z3.Or(z3.fpLT(y, zero), z3.fpIsInf(y))):
        raise Unsupported("IEEE modulo by a negative or infinite number")
    key = ("fpmod", x.get_id(), y.get_id())
    hit = e.memo.get(key)
    if hit is None:
        neg = e.branch(z3.fpLT(x, zero))
        r = z3.FP(e.fresh_name("fmodr"), x.sort())
        e.vars[str(r)] = r
        if neg:        # the remainder plus the divisor, rounded
            e.add(z3.And(z3.fpGEQ(r, zero), z3.fpLEQ(r, y)))
        else:
            e.add(z3.And(z3.fpGEQ(r, zero), z3.fpLT(r, y), z3.fpLEQ(r, x),
                         z3.Not(z3.fpIsNegative(r)),
                         z3.Implies(z3.fpLT(x, y), z3.fpEQ(r, x))))
        hit = (x, y, SymNum(r, "f"))
        e.memo[key] = hit
    return hit[2]


def s_fmod(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return np.fmod(_np(a), _np(b))
    if has_fp(a, b):
        if bool(s_lt(a, 0)):
            return s_neg(_fp_mod(s_neg(a), s_abs(b)))
        return _fp_mod(a, s_abs(b))
    if bool(s_eq(b, 0)):
        return np.float64(np.nan)
    b = s_abs(b)
    if bool(s_lt(a, 0)):
        return s_neg(s_mod(s_neg(a), b))
    return s_mod(a, b)


def s_floordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return np.floor_divide(_np(a), _np(b))
    if has_fp(a, b):
        raise Unsupported("IEEE floor division")
    if bool(s_eq(b, 0)):
        return np.float64(np.nan)
    return _divmod_real(a, b)[0]


def _uf(name, *args):
    """Uninterpreted real function, memoised on normalised arguments."""
    e = eng()
    ns = [z3.simplify(x, som=True) for x in args]
    f = z3.Function(name, *([z3.RealSort()] * (len(ns) + 1)))
    y = f(*ns)
    e.ufs[y.get_id()] = (name, ns, y)
    return y, ns


def _true_value(name, args):
    """interval around the real function's value at rational arguments, or None"""
    try:
        v = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "arctan": math.atan,
             "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "pow": math.pow}[name](*[float(a) for a in args])
    except (KeyError, ValueError, OverflowError, ZeroDivisionError):
        return None
    if isinstance(v, complex) or not math.isfinite(v):
        return None
    r = Fraction(v)
    d = abs(r) / 10 ** 9 + Fraction(1, 10 ** 14)
    return r - d, r + d


def pinned(e, m):
    """facts about the transcendental functions at the points a model uses, and constraints to stay at these points"""
    facts, pins = [], []
    for name, ns, y in e.ufs.values():
        vals = [m.eval(a, model_completion=True) for a in ns]
        if not all(z3.is_rational_value(v) for v in vals):
            vals = [v.approx(12) if z3.is_algebraic_value(v) else v for v in vals]
            if not all(z3.is_rational_value(v) for v in vals):
                continue
        t = _true_value(name, [v.as_fraction() for v in vals])
        if t is None:
            continue
        here = z3.And([a == v for a, v in zip(ns, vals)])
        q = [z3.Q(u.numerator, u.denominator) for u in t]
        facts.append(z3.Implies(here, z3.And(y >= q[0], y <= q[1])))
        if name == "exp":
            facts += [z3.Implies(ns[0] <= vals[0], y <= q[1]), z3.Implies(ns[0] >= vals[0], y >= q[0])]
        pins.append(here)
    return facts, pins


def _once(key, fact):
    e = eng()
    if key in e.memo:
        return
    e.memo[key] = True
    e.add(fact)


def _leading_negative(x):
    """Canonical sign of a normalised (sum of monomials) real term."""
    t = x
    if z3.is_rational_value(t):
        return t.numerator_as_long() < 0
    if z3.is_add(t):
        t = min(t.children(), key=lambda c: _strip_coeff(c)[1])
    return _strip_coeff(t)[0] < 0


def _strip_coeff(t):
    if z3.is_rational_value(t):
        return (-1 if t.numerator_as_long() < 0 else 1), ""
    if z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
        s = -1 if t.arg(0).numerator_as_long() < 0 else 1
        return s, " ".join(c.sexpr() for c in t.children()[1:])
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        s, n = _strip_coeff(t.arg(0))
        return -s, n
    return 1, t.sexpr()


def _exp_facts(x, y):
    _once(("exp1", y.get_id()), z3.And(
        z3.Implies(x >= 0, y >= 1), z3.Implies(x <= 0, y <= 1),
        z3.Implies(x >= 1, y >= EE), z3.Implies(x <= 1, y <= EE), y >= 1 + x))


def s_exp(a):
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.exp(np.float64(a))
    if type(a) is SymNum and a.kind == "f":
        raise Unsupported("IEEE exp")
    x = z3.simplify(to_real(a), som=True)
    if z3.is_rational_value(x) and x.numerator_as_long() == 0:
        return 1.0
    if _leading_negative(x):
        y, ns = _uf("exp", -x)
        _once(("exp>0", y.get_id()), y > 0)
        eng().memo[("keep", y.get_id())] = y
        _exp_facts(-x, y)
        return SymNum(_sp(1 / y), "r")
    y, ns = _uf("exp", x)
    eng().memo[("keep", y.get_id())] = y
    _once(("exp>0", y.get_id()), y > 0)
    _exp_facts(x, y)
    return SymNum(y, "r")


def s_log(a):
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.log(np.float64(a))
    y, _ = _uf("log", to_real(a))
    return SymNum(y, "r")


def _trig(name, a, odd):
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return getattr(np, name)(np.float64(a))
    if type(a) is SymNum and a.kind == "f":
        raise Unsupported("IEEE " + name)
    x = z3.simplify(to_real(a), som=True)
    if z3.is_rational_value(x) and x.numerator_as_long() == 0:
        return 0.0 if odd else 1.0
    neg = _leading_negative(x)
    if neg:
        x = z3.simplify(-x, som=True)
    s, _ = _uf("sin", x)
    c, _ = _uf("cos", x)
    eng().memo[("keep", s.get_id())] = (s, c)
    _once(("sc", s.get_id()), z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
    y = s if odd else c
    return SymNum(_sp(-y) if (neg and odd) else y, "r")


def s_sin(a):
    return _trig("sin", a, True)


def s_cos(a):
    return _trig("cos", a, False)


def s_tan(a):
    if not is_sym(a):
        return np.tan(np.float64(a))
    return s_div(s_sin(a), s_cos(a))


def s_tanh(a):
    if not is_sym(a):
        return np.tanh(np.float64(a))
    e2 = s_exp(s_mul(a, 2))
    return s_div(s_sub(e2, 1), s_add(e2, 1))


def s_arctan(a):
    if not is_sym(a):
        return np.arctan(np.float64(a))
    return SymNum(_uf("arctan", to_real(a))[0], "r")


def s_sqrt(a):
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.sqrt(np.float64(a))
    if type(a) is SymNum and a.kind == "f":
        return SymNum(z3.fpSqrt(RNE, a.e), "f")
    if bool(s_lt(a, 0)):
        return np.float64(np.nan)
    x = z3.simplify(to_real(a), som=True)
    y, _ = _uf("sqrt", x)
    eng().memo[("keep", y.get_id())] = y
    _once(("sqrt", y.get_id()), z3.And(y >= 0, y * y == x))
    return SymNum(y, "r")


def s_cbrt(a):
    if not is_sym(a):
        return np.cbrt(np.float64(a))
    return SymNum(_uf("cbrt", to_real(a))[0], "r")


def s_pow(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            a, b = _np(a), _np(b)
            if isinstance(a, int) and isinstance(b, int) and b < 0:
                raise ValueError("Integers to negative integer powers are not allowed.")
            return np.power(a, b) if not (isinstance(a, int) and isinstance(b, int)) else a ** b
    if not is_sym(b) and float(b) == int(b) and abs(int(b)) <= 12:
        n = int(b)
        r = 1 if sort_kind(a) == "i" and not conc_float(b) else 1.0
        for _ in range(abs(n)):
            r = s_mul(r, a) if not (not is_sym(r) and r == 1) else (
                a if not (conc_float(b) and sort_kind(a) == "i") else cast_scalar(a, "f"))
        if n < 0:
            r = s_div(1.0, r)
        return r
    if has_fp(a, b):
        raise Unsupported("IEEE power")
    if not is_sym(b) and float(b) == 0.5:
        return s_sqrt(a)
    A, B = z3.simplify(to_real(a)), to_real(b)
    # pow(x/y, n) = pow(x, n)/pow(y, n) for x >= 0, y > 0 (canonical form)
    if z3.is_app_of(A, z3.Z3_OP_DIV) and not z3.is_rational_value(A.arg(1)):
        num, den = SymNum(A.arg(0), "r"), SymNum(A.arg(1), "r")
        if bool(s_ge(num, 0)) and bool(s_gt(den, 0)):
            return s_div(s_pow(num, b), s_pow(den, b))
    y, ns = _uf("pow", A, B)
    eng().memo[("keep", y.get_id())] = y
    _once(("pow", y.get_id()), z3.And(
        z3.Implies(ns[0] > 0, y > 0),
        z3.Implies(z3.And(ns[0] == 0, ns[1] > 0), y == 0),
        z3.Implies(ns[0] == 1, y == 1),
        z3.Implies(ns[1] == 0, y == 1),
        z3.Implies(ns[1] == 1, y == ns[0])))
    # monotone in the base on the non-negative axis, for equal exponents
    pows = eng().memo.setdefault("pows", [])
    for (yo, ao, bo) in pows:
        _once(("powmono", y.get_id(), yo.get_id()), z3.Implies(
            z3.And(bo == ns[1], bo > 0, ao >= 0, ns[0] >= 0),
            z3.And(z3.Implies(ao <= ns[0], yo <= y), z3.Implies(ns[0] <= ao, y <= yo))))
    pows.append((y, ns[0], ns[1]))
    return SymNum(y, "r")


def s_abs(a):
    if not is_sym(a):
        return abs(_np(a)) if not isinstance(a, (bool, np.bool_)) else int(a)
    if type(a) is SymBool:
        return a
    if a.kind == "f":
        return SymNum(z3.fpAbs(a.e), "f")
    return mknum(_sp(z3.If(a.e >= 0, a.e, -a.e)), a.kind)


def s_sign(a):
    if not is_sym(a):
        return np.sign(_np(a))
    return s_ite(s_gt(a, 0), 1.0, s_ite(s_lt(a, 0), -1.0, 0.0))


def s_floor(a):
    if not is_sym(a):
        return np.floor(np.float64(a))
    if type(a) is SymBool or a.kind == "i":
        return cast_scalar(a, "f")
    if a.kind == "f":
        return SymNum(z3.fpRoundToIntegral(z3.RTN(), a.e), "f")
    return SymNum(_sp(z3.ToReal(z3.ToInt(a.e))), "r")


def s_ceil(a):
    if not is_sym(a):
        return np.ceil(np.float64(a))
    if type(a) is SymNum and a.kind == "f":
        return SymNum(z3.fpRoundToIntegral(z3.RTP(), a.e), "f")
    return s_neg(s_floor(s_neg(a)))


def s_trunc(a):
    if not is_sym(a):
        return np.trunc(np.float64(a))
    if a.kind == "f":
        return SymNum(z3.fpRoundToIntegral(z3.RTZ(), a.e), "f")
    return s_ite(s_ge(a, 0), s_floor(a), s_ceil(a))


def s_rint(a):
    if not is_sym(a):
        return np.rint(np.float64(a))
    if type(a) is SymNum and a.kind == "f":
        return SymNum(z3.fpRoundToIntegral(RNE, a.e), "f")
    if type(a) is SymNum and a.kind == "i":
        return a
    f = z3.ToInt(a.e)
    d = a.e - z3.ToReal(f)
    h = z3.RealVal("1/2")
    r = z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return SymNum(_sp(z3.ToReal(r)), "r")


# -- comparisons -------------------------------------------------------------
def _cmp(op):
    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            a, b = _np(a), _np(b)
            return bool({"lt": a < b, "le": a <= b, "eq": a == b}[op])
        if not has_fp(a, b):
            for p in (a, b):
                if conc_float(p) and math.isnan(p):
                    return False
            if nonfinite(a):
                return {"lt": a < 0, "le": a < 0, "eq": False}[op]
            if nonfinite(b):
                return {"lt": b > 0, "le": b > 0, "eq": False}[op]
        if sort_kind(a) == "b" and sort_kind(b) == "b" and op == "eq":
            return mkbool(bexpr(a) == bexpr(b))
        k, x, y = pair(a, b)
        if k == "f":
            g = {"lt": z3.fpLT, "le": z3.fpLEQ, "eq": z3.fpEQ}[op]
            return mkbool(g(x, y))
        return mkbool({"lt": x < y, "le": x <= y, "eq": x == y}[op])
    return f


s_lt, s_le, s_eq = _cmp("lt"), _cmp("le"), _cmp("eq")


def s_gt(a, b):
    return s_lt(b, a)


def s_ge(a, b):
    return s_le(b, a)


def s_ne(a, b):
    return s_not(s_eq(a, b))


def s_not(a):
    if type(a) is SymBool:
        return mkbool(z3.Not(a.e))
    if type(a) is SymNum:
        return s_eq(a, 0)
    return not a


def s_and(a, b):
    if not is_sym(a):
        return _b(b) if bool(a) else False
    if not is_sym(b):
        return _b(a) if bool(b) else False
    return mkbool(z3.And(bexpr(a), bexpr(b)))


def s_or(a, b):
    if not is_sym(a):
        return True if bool(a) else _b(b)
    if not is_sym(b):
        return True if bool(b) else _b(a)
    return mkbool(z3.Or(bexpr(a), bexpr(b)))


def _b(x):
    return mkbool(bexpr(x)) if is_sym(x) else bool(x)


def s_xor(a, b):
    return mkbool(z3.Xor(bexpr(a), bexpr(b)))


def s_ite(c, a, b):
    if not is_sym(c):
        return a if bool(c) else b
    if type(c) is SymNum:
        c = s_ne(c, 0)
        if not is_sym(c):
            return a if c else b
    if a is b:
        return a
    ka, kb = sort_kind(a), sort_kind(b)
    if ka == "b" and kb == "b":
        return mkbool(z3.If(c.e, bexpr(a), bexpr(b)))
    if not is_sym(a) and not is_sym(b):
        fa, fb = float(a), float(b)
        if ka == kb and (fa == fb and math.copysign(1, fa) == math.copysign(1, fb)
                         or (math.isnan(fa) and math.isnan(fb))):
            return a
    if not has_fp(a, b) and (nonfinite(a) or nonfinite(b)):
        return a if eng().branch(c.e) else b
    k, x, y = pair(a, b)
    return mknum(_sp(z3.If(c.e, x, y)), k) if k != "f" else SymNum(_sp(z3.If(c.e, x, y)), "f")


def s_isnan(a):
    if not is_sym(a):
        return bool(np.isnan(float(a)))
    if type(a) is SymNum and a.kind == "f":
        return mkbool(z3.fpIsNaN(a.e))
    return False


def s_isinf(a):
    if not is_sym(a):
        return bool(np.isinf(float(a)))
    if type(a) is SymNum and a.kind == "f":
        return mkbool(z3.fpIsInf(a.e))
    return False


def s_isfinite(a):
    return s_not(s_or(s_isnan(a), s_isinf(a)))


def s_minimum(a, b):
    """np.minimum: propagates NaN"""
    return s_ite(s_or(s_isnan(a), s_le(a, b)), a, b)


def s_maximum(a, b):
    return s_ite(s_or(s_isnan(a), s_ge(a, b)), a, b)


def s_fmin(a, b):
    return s_ite(s_or(s_isnan(b), s_le(a, b)), a, b)


def s_fmax(a, b):
    return s_ite(s_or(s_isnan(b), s_ge(a, b)), a, b)


def s_square(a):
    return s_mul(a, a)


def cast_scalar(x, kind):
    """cast to numpy kind 'b' / 'i' / 'f'"""
    if kind == "O":
        return x
    if kind == "b":
        return _b(x) if type(x) is SymBool else (s_ne(x, 0) if is_sym(x) else bool(x))
    k = sort_kind(x)
    if kind == "i":
        if k == "i":
            return x if type(x) is SymNum else int(x)
        if k == "b":
            return s_ite(x, 1, 0) if is_sym(x) else int(x)
        if not is_sym(x):
            return int(x)
        if x.kind == "f":
            raise Unsupported("IEEE value cast to integer")
        t = z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))
        return mknum(_sp(t), "i")
    if kind == "f":
        if k in ("r", "f"):
            return x
        if k == "b":
            return s_ite(x, 1.0, 0.0) if is_sym(x) else float(x)
        if not is_sym(x):
            return float(x)
        return SymNum(_sp(z3.ToReal(x.e)), "r")
    raise Unsupported("cast to " + kind)


_install()
