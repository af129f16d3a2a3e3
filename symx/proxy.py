"""The environment the pyswarms modules run in.

'sym' mode: modules named pyswarms* get stand-ins for numpy, math, random,
scipy.spatial, scipy.sparse.csgraph, multiprocessing and tqdm through an import
hook, so that the unmodified source of /repo executes on symbolic values.
'conc' mode (replay): the real numpy/scipy run; only randomness, the process
pool and, when asked, the neighbour searches are scripted.
"""
import builtins
import copy as _copy
import importlib
import itertools
import logging
import logging.config
import math as _math
import operator
import os
import sys
import types

import numpy as np

from . import arrays, core
from .arrays import SymArray, call_function, finish, has_symbols, is_arr, obj, wrap
from .core import (SymBool, SymNum, Unsupported, cast_scalar, eng, is_sym, s_add, s_and,
                   s_eq, s_ge, s_ite, s_le, s_lt, s_mul, s_ne, s_not, s_or, s_sub)

REPO = os.environ.get("VERIF_REPO", "/repo")


# --------------------------------------------------------------------------
# environment state
# --------------------------------------------------------------------------
class Env:
    mode = "sym"
    draw_theory = "r"         # theory of random draws: 'r' real, or an FP sort
    half = False              # conc mode: draws in half precision
    model = None              # conc mode: name -> value
    script_kd = False         # conc mode: script neighbour searches

    def __init__(self):
        self.reset()

    def reset(self):
        self.draws = []       # (name, stream, value)
        self.fixed = False    # every uniform number is a fixed one (two draws never get the same)
        self.calls = []       # log of environment calls
        self.pools = []
        self.streams = {}
        self.seeded = None
        self.counter = {}
        self.delaunay = {}
        self.trange = []
        self.kd = []

    def name(self, stem):
        k = self.counter.get(stem, 0)
        self.counter[stem] = k + 1
        return "%s#%d" % (stem, k)

    # one uniform draw from [0, 1)
    def unit(self, stream="rnd"):
        nm = self.name(stream)
        v = self._unit(nm)
        self.draws.append((nm, stream, v))
        return v

    def _unit(self, nm):
        if self.fixed:
            stem, k = nm.rsplit("#", 1)
            return ((int(k) * 37 + 11 * len(stem)) % 127 + 0.5) / 127
        if self.mode == "conc":
            v = self.model.get(nm)
            v = float(v) if v is not None else 0.5
            return np.float16(v) if self.half else v
        import z3
        e = eng()
        if isinstance(self.draw_theory, str):
            if nm in e.vars:
                return SymNum(e.vars[nm], "r")
            v = z3.Real(nm)
            e.vars[nm] = v
            e.add(z3.And(v >= 0, v < 1))
            return SymNum(v, "r")
        v = z3.FP(nm, self.draw_theory)
        e.vars[nm] = v
        zero = z3.FPVal(0.0, self.draw_theory)
        one = z3.FPVal(1.0, self.draw_theory)
        e.add(z3.And(z3.fpGEQ(v, zero), z3.fpLT(v, one)))
        return SymNum(v, "f")

    def free_real(self, stream="nrm"):
        nm = self.name(stream)
        if self.mode == "conc":
            v = self.model.get(nm)
            v = float(v) if v is not None else 0.25
        else:
            import z3
            v = z3.Real(nm)
            eng().vars[nm] = v
            v = SymNum(v, "r")
        self.draws.append((nm, stream, v))
        return v

    def integer(self, lo, hi, stream="rint"):
        """lo <= v < hi"""
        nm = self.name(stream)
        if self.mode == "conc":
            v = self.model.get(nm)
            s = int(v) if v is not None else int(lo)
        else:
            import z3
            e = eng()
            if nm in e.vars:
                s = SymNum(e.vars[nm], "i")
            else:
                v = z3.Int(nm)
                e.vars[nm] = v
                s = SymNum(v, "i")
            e.add(core.bexpr(s_and(s_ge(s, lo), s_lt(s, hi))))
        self.draws.append((nm, stream, s))
        return s


ENV = Env()


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)) or is_arr(size) or isinstance(size, np.ndarray):
        return tuple(operator.index(s) for s in size)
    return (operator.index(size),)


def _mk(values, shape, kind):
    if shape is None:
        return arrays.out(values[0], kind)
    if ENV.mode == "conc":
        half = kind == "f" and ENV.half
        return np.array(values, dtype={"f": np.float16 if half else float, "i": np.int64}[kind]).reshape(shape)
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return SymArray(a.reshape(shape), kind)


def _n(shape):
    n = 1
    for s in shape or ():
        n *= s
    return n


class RandomStub:
    """numpy.random: every draw is an arbitrary value of its documented range."""

    def __init__(self, stream="rnd", is_module=True):
        self._stream = stream
        self._mod = is_module

    def _s(self):
        if self._mod and ENV.seeded is not None:
            return "seeded(%s)" % (ENV.seeded,)
        return self._stream

    def _u(self, shape):
        return _mk([ENV.unit(self._s()) for _ in range(_n(shape))], shape, "f")

    def random_sample(self, size=None):
        return self._u(_shape(size))

    def random(self, size=None, dtype=None, out=None):
        return self._u(_shape(size))

    ranf = sample = random_sample

    def rand(self, *dims):
        return self._u(_shape(dims) if dims else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if ENV.mode == "conc":
            bl, bh = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
            if size is None and bl.ndim == 0 and bh.ndim == 0:
                shape = None
            else:
                shape = np.broadcast_shapes(bl.shape, bh.shape)
                if size is not None:
                    want = _shape(size)
                    if np.broadcast_shapes(shape, want) != want:
                        raise ValueError("Output size %s is not compatible with broadcast dimensions of inputs" % (want,))
                    shape = want
            u = self._u(shape)
            r = bl + (bh - bl) * u
            return r if shape is not None else np.float64(r)
        scal = not (hasattr(low, "__len__") or hasattr(high, "__len__"))
        lo, hi = wrap(low), wrap(high)
        if size is None:
            shape = None if scal else np.broadcast_shapes(lo.shape, hi.shape)
        else:
            shape = _shape(size)
            if np.broadcast_shapes(lo.shape, hi.shape, shape) != shape:
                raise ValueError("Output size %s is not compatible with broadcast dimensions of inputs" % (shape,))
        u = self._u(shape)
        if not scal or is_sym(low) or is_sym(high) or not (low == 0 and high == 1):
            return lo + (hi - lo) * u if not scal else s_or_arr(low, high, u)
        return u

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        if not is_sym(low) and not is_sym(high) and not is_arr(low) and not is_arr(high) \
                and not isinstance(low, (list, np.ndarray)) and not isinstance(high, (list, np.ndarray)):
            if isinstance(low, float) or isinstance(high, float):
                low, high = int(low), int(high)
            if low >= high:
                raise ValueError("low >= high")
        else:
            if is_arr(low) or is_arr(high):
                raise Unsupported("randint with array bounds")
            if not bool(s_lt(low, high)):
                raise ValueError("low >= high")
        shape = _shape(size)
        stem = "rint" if self._s() == "rnd" else self._s() + ".int"
        return _mk([ENV.integer(low, high, stem) for _ in range(_n(shape))], shape, "i")

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, s_add(high, 1) if endpoint else high, size)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, s_add(high, 1), size)

    def _distinct(self, n, k):
        stem = "rchoice" if self._s() == "rnd" else self._s() + ".choice"
        idx = [ENV.integer(0, n, stem) for _ in range(k)]
        if ENV.mode == "sym":
            for i, j in itertools.combinations(range(k), 2):
                eng().add(core.bexpr(s_ne(idx[i], idx[j])))
        else:
            used = set()
            for i in range(k):
                v = idx[i]
                while v in used:
                    v = (v + 1) % n
                used.add(v)
                idx[i] = v
        return idx

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pop = a
        if not (hasattr(a, "__len__")):
            n = operator.index(a)
            pop = None
        else:
            n = len(a)
        shape = _shape(size)
        k = _n(shape)
        if n <= 0 and k > 0:
            raise ValueError("a must be a positive integer unless no samples are taken")
        if replace or shape is None:
            stem = "rchoice" if self._s() == "rnd" else self._s() + ".choice"
            idx = [ENV.integer(0, n, stem) for _ in range(k)]
        else:
            if k > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            idx = self._distinct(n, k)
        r = _mk(idx, shape, "i")
        if pop is None:
            return r
        return (wrap(pop) if ENV.mode == "sym" else np.asarray(pop))[r]

    def permutation(self, x, axis=0):
        if hasattr(x, "__len__"):
            idx = _mk(self._distinct(len(x), len(x)), (len(x),), "i")
            return (wrap(x) if ENV.mode == "sym" else np.asarray(x))[idx]
        n = operator.index(x)
        return _mk(self._distinct(n, n), (n,), "i")

    def shuffle(self, x, axis=0):
        p = self.permutation(x)
        x[:] = p if not isinstance(x, list) else list(p)

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = _shape(size)
        z = _mk([ENV.free_real() for _ in range(_n(shape))], shape, "f")
        return loc + scale * z

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *dims):
        return self.normal(size=dims if dims else None)

    def seed(self, s=None):
        ENV.calls.append(("seed", s))
        ENV.seeded = s
        ENV.counter = {k: v for k, v in ENV.counter.items() if not k.startswith("seeded(")}

    def get_state(self, *a, **k):
        ENV.calls.append(("get_state",))
        return ("state", dict(ENV.counter), ENV.seeded)

    def set_state(self, st):
        ENV.calls.append(("set_state",))
        ENV.counter, ENV.seeded = dict(st[1]), st[2]

    def default_rng(self, seed=None):
        ENV.calls.append(("default_rng", seed))
        nm = ENV.name("rng") if seed is None else "rngseed(%s)" % (seed,)
        if seed is not None:
            ENV.counter = {k: v for k, v in ENV.counter.items() if not k.startswith(nm)}
        return RandomStub(nm, False)

    def RandomState(self, seed=None):
        return self.default_rng(seed)

    Generator = RandomState

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(np.random, name):
            raise AttributeError("module 'numpy.random' has no attribute '%s'" % name)
        raise Unsupported("np.random.%s" % name)


def s_or_arr(low, high, u):
    return low + (high - low) * u


class PyRandomStub:
    """the standard library's random module"""

    def _u(self):
        return ENV.unit("pyrnd")

    def random(self):
        return self._u()

    def uniform(self, a, b):
        return a + (b - a) * self._u()

    def randint(self, a, b):
        return ENV.integer(a, s_add(b, 1), "pyint")

    def randrange(self, a, b=None):
        return ENV.integer(a if b is not None else 0, b if b is not None else a, "pyint")

    def choice(self, seq):
        i = ENV.integer(0, len(seq), "pyint")
        return seq[operator.index(i)]

    def sample(self, pop, k):
        pop = list(pop)
        r = []
        for _ in range(k):
            i = operator.index(ENV.integer(0, len(pop), "pyint"))
            r.append(pop.pop(i))
        return r

    def shuffle(self, x):
        x[:] = self.sample(x, len(x))

    def seed(self, s=None):
        ENV.calls.append(("pyseed", s))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("random.%s" % name)


# --------------------------------------------------------------------------
# numpy / math
# --------------------------------------------------------------------------
class UfuncProxy:
    def __init__(self, real):
        self._r = real
        self.__name__ = real.__name__
        self.nin, self.nout, self.identity = real.nin, real.nout, real.identity

    def __call__(self, *a, **k):
        a = [wrap(x) if isinstance(x, (list, tuple)) else x for x in a]
        if any(type(x) is MaskedSym for x in a):
            m = next(x for x in a if type(x) is MaskedSym)
            return m.__array_ufunc__(self._r, "__call__", *a, **k)
        if len(a) > self.nin:
            k["out"] = a[self.nin]
            a = a[:self.nin]
        return arrays.ufunc_dispatch(self._r, "__call__", a, k)

    def reduce(self, a, axis=0, **k):
        return arrays.ufunc_dispatch(self._r, "reduce", (a,), dict(k, axis=axis))

    def accumulate(self, a, axis=0, **k):
        return arrays.ufunc_dispatch(self._r, "accumulate", (a,), dict(k, axis=axis))

    def outer(self, a, b, **k):
        return arrays.ufunc_dispatch(self._r, "outer", (a, b), k)

    def at(self, *a):
        return arrays.ufunc_dispatch(self._r, "at", a, {})

    def __getattr__(self, n):
        return getattr(self._r, n)


class LinalgProxy:
    def __getattr__(self, name):
        real = getattr(np.linalg, name)
        if name == "LinAlgError":
            return real

        def f(*a, **k):
            if not has_symbols(list(a)) and not has_symbols(k):
                return arrays.rewrap(real(*[arrays.concrete(x) for x in a],
                                          **{q: arrays.concrete(v) for q, v in k.items()}))
            if name == "norm":
                return arrays.FUNCS["norm"](*a, **k)
            raise Unsupported("np.linalg.%s on symbolic values" % name)
        return f


class MaskedSym:
    """np.ma arrays with a concrete mask, as far as pyswarms uses them"""
    _masked = True

    def __init__(self, data, mask):
        self.data = wrap(data)
        m = arrays.concrete(wrap(mask)).astype(bool) if mask is not False else np.zeros(self.data.shape, bool)
        self.mask = np.broadcast_to(m, self.data.shape).copy()

    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    T = property(lambda s: MaskedSym(s.data.T, s.mask.T))

    def _bin(self, uf, a, b):
        da, ma = (a.data, a.mask) if isinstance(a, MaskedSym) else (a, False)
        db, mb = (b.data, b.mask) if isinstance(b, MaskedSym) else (b, False)
        # masked cells are not computed (numpy.ma keeps the data there)
        r = wrap(arrays.elementwise(uf, (da, db)))
        return MaskedSym(r, np.broadcast_to(np.logical_or(ma, mb), r.shape))

    def sum(self, axis=None, **k):
        src = np.empty(self.data.shape, dtype=object)
        for i in np.ndindex(*src.shape):
            src[i] = 0.0 if self.mask[i] else self.data._a[i]
        r = arrays.FUNCS["sum"](SymArray(src, self.data.kind), axis=axis)
        allm = self.mask.all(axis=axis)
        if np.ndim(r) == 0 and not is_arr(r):
            return r
        return MaskedSym(r, allm)

    def filled(self, v=None):
        return arrays.FUNCS["where"](wrap(self.mask), v, self.data)

    def __getitem__(self, i):
        m = self.mask[i]
        d = self.data[i]
        return MaskedSym(d, m) if is_arr(d) else d

    def __len__(self):
        return len(self.data)

    def __array_ufunc__(self, ufunc, method, *inp, **k):
        if method != "__call__" or k:
            raise Unsupported("masked ufunc " + method)
        if len(inp) == 1:
            return MaskedSym(arrays.elementwise(ufunc.__name__, (inp[0].data,)), inp[0].mask)
        return self._bin(ufunc.__name__, *inp)

    def compressed(self):
        return self.data[wrap(~self.mask)]


def _install_masked():
    ops = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "true_divide",
           "pow": "power", "mod": "remainder", "lt": "less", "le": "less_equal", "gt": "greater",
           "ge": "greater_equal"}

    def mk(uf):
        return (lambda s, o: s._bin(uf, s, o)), (lambda s, o: s._bin(uf, o, s))
    for op, uf in ops.items():
        f, r = mk(uf)
        setattr(MaskedSym, "__%s__" % op, f)
        setattr(MaskedSym, "__r%s__" % op, r)
    MaskedSym.__neg__ = lambda s: MaskedSym(-s.data, s.mask)
    MaskedSym.__abs__ = lambda s: MaskedSym(abs(s.data), s.mask)


_install_masked()


class MaProxy:
    MaskedArray = MaskedSym

    def array(self, data, mask=False, **k):
        if isinstance(data, MaskedSym):
            return MaskedSym(data.data, np.logical_or(data.mask, arrays.concrete(wrap(mask))))
        return MaskedSym(wrap(data).copy(), mask)

    masked_array = array

    def sum(self, a, axis=None):
        return a.sum(axis=axis)

    def __getattr__(self, n):
        raise Unsupported("np.ma.%s" % n)


_TYPE_NAMES = {"float64": "f", "float32": None, "float16": None, "double": "f", "int64": "i", "int32": None,
               "int_": "i", "intp": "i", "bool_": "b", "float_": "f", "uint8": None}


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        try:
            return issubclass(c, cls._real)
        except TypeError:
            return False

    def __call__(cls, *a, **k):
        if a and (is_sym(a[0]) or is_arr(a[0])):
            x = a[0]
            if is_arr(x):
                if cls._np:
                    return x.astype(cls._k)
                if x.size != 1:
                    raise TypeError("only length-1 arrays can be converted to Python scalars")
                x = x._a.reshape(-1)[0]
            if not is_sym(x):
                return cls._real(x)
            if cls._k == "b":
                return cast_scalar(x, "b") if cls._np else bool(x)
            return cast_scalar(x, cls._k)
        return cls._real(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _mk_type(real, k, is_np):
    return _TypeMeta(real.__name__, (), {"_real": real, "_k": k, "_np": is_np, "dtype": np.dtype(real)})


PFloat = _mk_type(float, "f", False)
PInt = _mk_type(int, "i", False)
PBool = _mk_type(bool, "b", False)
_NPT = {n: _mk_type(getattr(np, n), k, True) for n, k in _TYPE_NAMES.items() if k and hasattr(np, n)}

RANDOM = RandomStub()
_OPAQUE = {"errstate", "printoptions", "set_printoptions", "seterr", "finfo", "iinfo", "dtype", "testing",
           "exceptions", "ndindex", "ndarray", "generic", "number", "floating", "integer", "warnings",
           "isfortran", "typing", "lib", "s_", "index_exp", "broadcast_shapes", "AxisError",
           "inexact", "bool", "str_", "object_", "newaxis", "pi", "e", "inf", "nan", "geterr"}


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["random"] = RANDOM
        self.__dict__["linalg"] = LinalgProxy()
        self.__dict__["ma"] = MaProxy()
        self.__dict__["_cache"] = {}
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        real = getattr(np, name)
        if name in _NPT:
            r = _NPT[name]
        elif name in _OPAQUE:
            r = real
        elif isinstance(real, np.ufunc):
            r = UfuncProxy(real)
        elif name == "vectorize":
            r = Vectorize
        elif name in ("r_", "c_"):
            r = _RC(name)
        elif isinstance(real, types.ModuleType):
            raise Unsupported("numpy.%s" % name)
        elif callable(real):
            def r(*a, **k):
                return call_function(name, a, k, real)
            r.__name__ = name
        else:
            r = real
        c[name] = r
        return r


class _RC:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, k):
        items = k if isinstance(k, tuple) else (k,)
        if any(isinstance(i, (slice, str)) for i in items):
            if any(has_symbols(i) for i in items):
                raise Unsupported("np.r_ slices with symbols")
            return arrays.rewrap(getattr(np, self.name)[arrays.concrete(k)])
        ws = [wrap(i) for i in items]
        if self.name == "r_":
            return call_function("concatenate", ([w if w.ndim else w.reshape(1) for w in ws],), {})
        return call_function("column_stack", (ws,), {})


class Vectorize:
    def __init__(self, f, otypes=None, signature=None, **k):
        if signature is not None:
            raise Unsupported("np.vectorize signature")
        self.f = f

    def __call__(self, *args):
        objs = [obj(wrap(a)) for a in args]
        b = np.broadcast(*objs)
        vals = [self.f(*t) for t in b]
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return wrap(a.reshape(b.shape)) if b.shape else vals[0]


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    _MAP = {"exp": core.s_exp, "sqrt": core.s_sqrt, "sin": core.s_sin, "cos": core.s_cos,
            "tan": core.s_tan, "tanh": core.s_tanh, "log": core.s_log, "pow": core.s_pow,
            "fabs": core.s_abs, "isnan": core.s_isnan, "isinf": core.s_isinf,
            "isfinite": core.s_isfinite, "fmod": core.s_fmod}

    def __getattr__(self, name):
        real = getattr(_math, name)
        if not callable(real):
            return real

        def f(*a, **k):
            a = [x._a.reshape(-1)[0] if is_arr(x) and x.size == 1 else x for x in a]
            if not any(is_sym(x) or has_symbols(x) for x in a):
                return real(*[arrays.concrete(x) for x in a], **k)
            if name in ("floor", "ceil", "trunc"):
                return cast_scalar(getattr(core, "s_" + name)(a[0]), "i")
            if name == "hypot":
                return arrays.s_hypot(*a)
            if name in ("prod", "fsum"):
                r = 1 if name == "prod" else 0.0
                for v in a[0]:
                    r = r * v if name == "prod" else r + v
                return r
            if name == "isclose":
                d = core.s_abs(s_sub(a[0], a[1]))
                return s_le(d, s_mul(k.get("rel_tol", 1e-9), arrays.s_maximum(core.s_abs(a[0]), core.s_abs(a[1]))))
            if name in self._MAP:
                if name == "pow":
                    return self._MAP[name](cast_scalar(a[0], "f"), a[1])
                if name == "log" and len(a) > 1:
                    raise Unsupported("math.log with a base")
                return self._MAP[name](*a)
            raise Unsupported("math.%s" % name)
        return f


# --------------------------------------------------------------------------
# scipy
# --------------------------------------------------------------------------
def _distp(x, y, p):
    """monotone image of the Minkowski-p distance of two rows"""
    acc = None
    for a, b in zip(x, y):
        d = core.s_abs(s_sub(a, b))
        if p == np.inf:
            t = d
            acc = t if acc is None else arrays.s_maximum(acc, t)
            continue
        if p == 1:
            t = d
        elif p == 2:
            t = s_mul(s_sub(a, b), s_sub(a, b))
        else:
            t = core.s_pow(d, p)
        acc = t if acc is None else s_add(acc, t)
    return acc if acc is not None else 0.0


class KDTree:
    """k-nearest-neighbour search by contract: any k distinct points, nearest
    first, none left out being strictly nearer (ties broken arbitrarily)."""

    def __init__(self, data, *a, **k):
        self.data = wrap(data)
        if self.data.ndim != 2:
            raise ValueError("data must be 2 dimensions")
        self.n, self.m = self.data.shape

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf, workers=1, **kw):
        x = wrap(x)
        one = x.ndim == 1
        rows = [x._a] if one else [x._a[i] for i in range(x.shape[0])]
        k = operator.index(k)
        p = p if isinstance(p, (int, float)) and not is_sym(p) else (
            operator.index(p) if is_sym(p) and p.kind == "i" else p)
        if is_sym(p):
            raise Unsupported("symbolic Minkowski exponent")
        if p < 1:
            raise ValueError("Only p-norms with 1<=p<=infinity permitted")
        if k > self.n:
            raise Unsupported("more neighbours requested than points")
        pts = [self.data._a[i] for i in range(self.n)]
        ids = np.empty((len(rows), k), dtype=object)
        ds = np.empty((len(rows), k), dtype=object)
        for r, row in enumerate(rows):
            D = [_distp(row, q, p) for q in pts]
            sel = [ENV.integer(0, self.n, "nbr") for _ in range(k)]
            e = eng()
            for i, j in itertools.combinations(range(k), 2):
                e.add(core.bexpr(s_ne(sel[i], sel[j])))
            dv = []
            for s in sel:
                d = D[-1]
                for v in range(self.n - 2, -1, -1):
                    d = s_ite(s_eq(s, v), D[v], d)
                dv.append(d)
            for i in range(k - 1):
                e.add(core.bexpr(s_le(dv[i], dv[i + 1])))
            for q in range(self.n):
                insel = False
                for s in sel:
                    insel = s_or(insel, s_eq(s, q))
                e.add(core.bexpr(s_or(insel, s_le(dv[-1], D[q]))))
            for i in range(k):
                ids[r, i] = sel[i]
                ds[r, i] = core.s_sqrt(dv[i]) if p == 2 and ENV_KD_DIST[0] else dv[i]
        ENV.kd.append((self.data, x, k, p))
        I, Dm = SymArray(ids, "i"), SymArray(ds, "f")
        if k == 1 and not kw.get("keepdims"):
            I, Dm = I[:, 0], Dm[:, 0]
        if one:
            I, Dm = I[0], Dm[0]
        return Dm, I

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("cKDTree.%s" % n)


ENV_KD_DIST = [False]


class Delaunay:
    """A triangulation by contract: an arbitrary connected undirected neighbour
    graph, a function of the points only."""

    def __init__(self, points, *a, **k):
        pts = wrap(points)
        self.points = pts
        n = pts.shape[0]
        key = tuple(core.to_real(v).get_id() if is_sym(v) else float(v) for v in pts._a.ravel().tolist())
        g = ENV.delaunay.get(key)
        if g is None:
            adj = np.zeros((n, n), dtype=bool)
            for i, j in itertools.combinations(range(n), 2):
                b = ENV.integer(0, 2, "edge")
                v = bool(s_eq(b, 1))
                adj[i, j] = adj[j, i] = v
            from scipy.sparse.csgraph import connected_components
            if connected_components(adj, directed=False, return_labels=False) != 1:
                raise core.Infeasible()
            g = adj
            ENV.delaunay[key] = g
            ENV.delaunay_keep = getattr(ENV, "delaunay_keep", []) + [pts]
        self._adj = g
        ind, ptr = [], [0]
        for i in range(n):
            ind += [int(j) for j in np.nonzero(g[i])[0]]
            ptr.append(len(ind))
        self.vertex_neighbor_vertices = (wrap(np.array(ptr)), wrap(np.array(ind, dtype=int)))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("Delaunay.%s" % n)


def _conc_graph(a):
    a = wrap(a)
    if not has_symbols(a):
        return arrays.concrete(a)
    r = np.zeros(a.shape)
    for i in np.ndindex(*a.shape):
        v = a._a[i]
        if is_sym(v):
            if type(v) is SymNum and v.kind != "i":
                raise Unsupported("graph algorithms on weighted symbolic graphs")
            v = cast_scalar(v, "i") if type(v) is SymBool else v
            r[i] = operator.index(v)
        else:
            r[i] = v
    return r


def _graphfn(name):
    def f(g, *a, **k):
        from scipy.sparse import csgraph
        a = [arrays.concrete(x) for x in a]
        return arrays.rewrap(getattr(csgraph, name)(_conc_graph(g), *a, **k))
    f.__name__ = name
    return f


class StubModule(types.ModuleType):
    def __init__(self, name, **attrs):
        super().__init__(name)
        self.__dict__.update(attrs)
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__name__, n))


def _cdist(a, b, metric="euclidean", p=2, **k):
    a, b = wrap(a), wrap(b)
    pp = {"euclidean": 2, "cityblock": 1, "chebyshev": np.inf, "minkowski": p, "sqeuclidean": 2}[metric]
    r = np.empty((a.shape[0], b.shape[0]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[0]):
            d = _distp(a._a[i], b._a[j], pp)
            if pp == 2 and metric != "sqeuclidean":
                d = core.s_sqrt(d)
            r[i, j] = d
    return SymArray(r, "f")


def _expit(x):
    x = wrap(x)
    return 1 / (1 + arrays.elementwise("exp", (-x,)))


# --------------------------------------------------------------------------
# multiprocessing
# --------------------------------------------------------------------------
def _ship(x):
    """what a worker process sees: a copy"""
    if is_arr(x) or isinstance(x, np.ndarray):
        return x.copy()
    return x


class _Async:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class PoolStub:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, **k):
        if processes is None:
            processes = 2
        if isinstance(processes, (int, np.integer)) and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._processes = processes
        self.closed = False
        self.terminated = False
        self.mapped = []
        ENV.pools.append(self)

    def _check(self):
        if self.closed:
            raise ValueError("Pool not running")

    def map(self, f, it, chunksize=None):
        self._check()
        items = list(it)
        self.mapped.append(len(items))
        return [_ship(f(_ship(x))) for x in items]

    def imap(self, f, it, chunksize=None):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=None):
        # completion order is arbitrary: any rotation may be seen
        r = self.map(f, it)
        return iter(r[1:] + r[:1])

    def starmap(self, f, it, chunksize=None):
        return self.map(lambda a: f(*a), it)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return _Async(self.map(f, it))

    def apply(self, f, args=(), kwds={}):
        self._check()
        return _ship(f(*[_ship(a) for a in args], **kwds))

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return _Async(self.apply(f, args, kwds))

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = self.terminated = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class MpStub(StubModule):
    def __init__(self):
        super().__init__("multiprocessing")

    Pool = staticmethod(lambda *a, **k: PoolStub(*a, **k))

    @staticmethod
    def cpu_count():
        return 4

    def get_context(self, m=None):
        return self


class TrangeStub:
    def __init__(self, *a, **k):
        self.k = k
        self.it = range(*a) if a and not hasattr(a[0], "__iter__") else a[0]
        self.post = []
        ENV.trange.append(self)

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return len(self.it)

    def set_postfix(self, *a, **k):
        self.post.append((a, k))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _nop(self, *a, **k):
        pass

    set_description = update = close = refresh = write = clear = set_postfix_str = _nop


# --------------------------------------------------------------------------
# installation
# --------------------------------------------------------------------------
_SCIPY = {}


def _modules():
    nump = NumpyProxy()
    spatial_distance = StubModule("scipy.spatial.distance", cdist=_cdist)
    spatial = StubModule("scipy.spatial", cKDTree=KDTree, KDTree=KDTree, Delaunay=Delaunay, distance=spatial_distance)
    csg = StubModule("scipy.sparse.csgraph", dijkstra=_graphfn("dijkstra"),
                     connected_components=_graphfn("connected_components"),
                     shortest_path=_graphfn("shortest_path"), floyd_warshall=_graphfn("floyd_warshall"),
                     breadth_first_order=_graphfn("breadth_first_order"))
    sparse = StubModule("scipy.sparse", csgraph=csg)
    special = StubModule("scipy.special", expit=_expit)
    scipy = StubModule("scipy", spatial=spatial, sparse=sparse, special=special)
    futures = StubModule("concurrent.futures")
    tq = StubModule("tqdm", trange=TrangeStub, tqdm=TrangeStub, auto=None)
    tq.__dict__["auto"] = tq
    return {
        "numpy": nump, "numpy.random": RANDOM, "numpy.linalg": nump.linalg, "numpy.ma": nump.ma,
        "math": MathProxy(), "random": PyRandomStub(),
        "scipy": scipy, "scipy.spatial": spatial, "scipy.spatial.distance": spatial_distance,
        "scipy.sparse": sparse, "scipy.sparse.csgraph": csg, "scipy.special": special,
        "multiprocessing": MpStub(), "concurrent.futures": futures,
        "tqdm": tq, "tqdm.auto": tq,
    }


MODS = None
_real_import = builtins.__import__


def _hook(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and globals is not None and str(globals.get("__name__", "")).split(".")[0] == "pyswarms":
        if name in MODS:
            if fromlist:
                return MODS[name]
            return MODS[name.split(".")[0]] if name.split(".")[0] in MODS else _real_import(name, globals, locals, fromlist, level)
    return _real_import(name, globals, locals, fromlist, level)


def quiet_logging():
    logging.config.dictConfig = lambda *a, **k: None
    logging.disable(logging.CRITICAL)


def install_sym():
    """import pyswarms symbolically"""
    global MODS
    MODS = _modules()
    ENV.mode = "sym"
    quiet_logging()
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    builtins.__import__ = _hook
    load_all()
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "pyswarms" and m is not None:
            m.__dict__.setdefault("float", PFloat)
            m.__dict__.setdefault("int", PInt)


PY_MODULES = ["pyswarms", "pyswarms.backend.topology", "pyswarms.backend.operators",
              "pyswarms.backend.generators", "pyswarms.backend.handlers", "pyswarms.backend.swarms",
              "pyswarms.single", "pyswarms.discrete", "pyswarms.base",
              "pyswarms.utils.search", "pyswarms.utils.decorators", "pyswarms.utils.functions.single_obj",
              "pyswarms.utils.plotters.formatters", "pyswarms.utils.plotters.plotters",
              "pyswarms.utils.reporter"]


def load_all():
    # isinstance()-style type checks inside pyswarms see the real builtins, so
    # float/int stand-ins are only injected after import
    for m in PY_MODULES:
        if "plotters" in m and not PLOT[0]:
            continue
        importlib.import_module(m)


PLOT = [False]


def install_conc():
    """real numpy/scipy with scripted randomness and an in-process pool"""
    ENV.mode = "conc"
    ENV.model = {}
    quiet_logging()
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import multiprocessing
    import random as pyrandom
    for n in ("uniform", "random_sample", "random", "rand", "randint", "choice", "permutation", "shuffle",
              "normal", "randn", "standard_normal", "ranf", "sample", "random_integers", "seed", "default_rng",
              "get_state", "set_state"):
        setattr(np.random, n, getattr(RANDOM, n))
    multiprocessing.Pool = PoolStub
    load_all()
    pr = PyRandomStub()
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "pyswarms" and m is not None:
            for k, v in list(m.__dict__.items()):
                if v is pyrandom:
                    setattr(m, k, pr)
                if getattr(v, "__module__", "") == "tqdm.std" and callable(v):
                    setattr(m, k, TrangeStub)


class ConcKDTree:
    def __init__(self, data, *a, **k):
        self.data = np.asarray(data)

    def query(self, x, k=1, p=2, **kw):
        x = np.asarray(x)
        n = len(self.data)
        rows = []
        for r in range(len(x)):
            sel = [ENV.integer(0, n, "nbr") for _ in range(k)]
            rows.append(sel)
        I = np.array(rows)
        D = np.array([[float(_distp(x[r], self.data[j], p)) for j in rows[r]] for r in range(len(x))])
        if k == 1:
            return D[:, 0], I[:, 0]
        return D, I


class ConcDelaunay(Delaunay):
    def __init__(self, points, *a, **k):
        super().__init__(points, *a, **k)
        self.vertex_neighbor_vertices = tuple(arrays.concrete(v) for v in self.vertex_neighbor_vertices)


_REAL_SP = {}
SCRIPTED = [False]


def triangulation(points):
    """the neighbour graph the (stub, scripted or real) triangulation gives"""
    if ENV.mode == "sym" or SCRIPTED[0]:
        return Delaunay(points)._adj
    from scipy.spatial import Delaunay as real
    t = real(points, qhull_options="QJ0.001 Qbb Qc Qx")
    ptr, ind = t.vertex_neighbor_vertices
    n = len(points)
    return [[j in ind[ptr[i]:ptr[i + 1]] for j in range(n)] for i in range(n)]


def script_searches(on):
    """conc mode: answer neighbour searches from the model (by their contract)"""
    import scipy.spatial as sp
    SCRIPTED[0] = on
    if not _REAL_SP:
        _REAL_SP.update(cKDTree=sp.cKDTree, KDTree=sp.KDTree, Delaunay=sp.Delaunay)
    rep = {"cKDTree": ConcKDTree, "KDTree": ConcKDTree, "Delaunay": ConcDelaunay}
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "pyswarms" and m is not None:
            for k, v in list(m.__dict__.items()):
                for nm in rep:
                    if v is _REAL_SP[nm] or v is rep[nm]:
                        setattr(m, k, rep[nm] if on else _REAL_SP[nm])
