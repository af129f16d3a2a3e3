"""Symbolic numpy arrays: element-wise symbolic scalars over real numpy shape,
view, broadcasting and indexing semantics (an object ndarray carries them)."""
import itertools
import operator

import numpy as np

from . import core
from .core import (CONC, SymBool, SymNum, Unsupported, cast_scalar, eng, is_sym,
                   kind_of_dtype, s_abs, s_add, s_and, s_arctan, s_cbrt, s_ceil, s_cos,
                   s_div, s_eq, s_exp, s_floor, s_floordiv, s_fmax, s_fmin, s_fmod,
                   s_ge, s_gt, s_isfinite, s_isinf, s_isnan, s_ite, s_le, s_log, s_lt,
                   s_maximum, s_minimum, s_mod, s_mul, s_ne, s_neg, s_not, s_or, s_pow,
                   s_rint, s_sign, s_sin, s_sqrt, s_square, s_sub, s_tan, s_tanh,
                   s_trunc, s_xor)

_DT = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(float), "O": np.dtype(object)}
_RANK = {"b": 0, "i": 1, "f": 2, "O": 3}


def scalar_kind(x):
    if type(x) is SymNum:
        return "i" if x.kind == "i" else "f"
    if type(x) is SymBool or isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    return "O"


def out(x, kind=None):
    """scalar handed to the code under test (numpy scalar types)"""
    if is_sym(x):
        return x
    if isinstance(x, (bool, np.bool_)):
        return np.bool_(x)
    if isinstance(x, (int, np.integer)):
        return np.float64(x) if kind == "f" else np.int64(x)
    if isinstance(x, float):
        return np.float64(x)
    return x


def promote(*kinds):
    return max(kinds, key=lambda k: _RANK[k]) if kinds else "f"


def is_arr(x):
    return type(x) is SymArray


def obj(x):
    """object ndarray of anything array-like"""
    if type(x) is SymArray:
        return x._a
    if is_sym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, CONC):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    return wrap(x)._a


def _seq_shape(x):
    if type(x) is SymArray:
        return x._a.shape
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        shapes = [_seq_shape(y) for y in x]
        if not shapes:
            return (0,)
        if any(s != shapes[0] for s in shapes):
            raise ValueError(
                "setting an array element with a sequence. The requested array has an "
                "inhomogeneous shape after 1 dimensions.")
        return (len(x),) + shapes[0]
    return ()


def _flat(x):
    if type(x) is SymArray:
        yield from x._a.ravel().tolist()
    elif isinstance(x, np.ndarray):
        yield from x.ravel().tolist()
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _flat(y)
    else:
        yield x


def wrap(x, kind=None):
    """SymArray (0-d allowed) of anything array-like."""
    if type(x) is SymArray:
        return x if kind is None else x.astype(kind)
    if isinstance(x, np.ndarray) and not is_sym(x):
        k = {"b": "b", "i": "i", "u": "i", "f": "f"}.get(x.dtype.kind, "O")
        a = np.empty(x.shape, dtype=object)
        a[...] = x if k == "O" else x.astype(object)
        if k == "O":
            ks = {scalar_kind(v) for v in a.ravel().tolist()}
            k = promote(*ks) if ks else "O"
        return SymArray(a, kind or k)
    if isinstance(x, (range, map, filter, zip)) or hasattr(x, "__next__"):
        x = list(x)
    if isinstance(x, dict) or isinstance(x, (set, frozenset)):
        raise Unsupported("array of %s" % type(x))
    shape = _seq_shape(x)
    flat = list(_flat(x))
    ks = set()
    if isinstance(x, (list, tuple)):
        def kinds(y):
            if type(y) is SymArray:
                ks.add(y.kind)
            elif isinstance(y, np.ndarray) and not is_sym(y):
                ks.add({"b": "b", "i": "i", "u": "i", "f": "f"}.get(y.dtype.kind, "O"))
            elif isinstance(y, (list, tuple)):
                for z in y:
                    kinds(z)
            else:
                ks.add(scalar_kind(y))
        kinds(x)
    else:
        ks.add(scalar_kind(x))
    k = kind or (promote(*ks) if ks else "f")
    a = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        a[i] = cast_scalar(v, k) if k in "bif" else v
    return SymArray(a.reshape(shape), k)


def has_symbols(x):
    if is_sym(x):
        return True
    if type(x) is SymArray:
        return any(is_sym(v) for v in x._a.ravel().tolist())
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return any(has_symbols(v) for v in x)
    if isinstance(x, dict):
        return any(has_symbols(v) for v in x.values())
    return False


def concrete(x):
    """real numpy value of something without symbols"""
    if type(x) is SymArray:
        if x.kind == "O":
            return x._a
        return x._a.astype(_DT[x.kind])
    if isinstance(x, list):
        return [concrete(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(concrete(v) for v in x)
    if isinstance(x, dict):
        return {k: concrete(v) for k, v in x.items()}
    return x


def rewrap(r):
    if isinstance(r, np.ndarray) and not is_sym(r) and type(r) is not SymArray:
        return wrap(r)
    if type(r) is tuple:
        return tuple(rewrap(v) for v in r)
    if type(r) is list:
        return [rewrap(v) for v in r]
    return r


def finish(a, kind):
    """object ndarray -> SymArray, 0-d -> scalar"""
    if not isinstance(a, np.ndarray) or is_sym(a):
        return out(a, kind)
    if a.ndim == 0:
        return out(a[()], kind)
    return SymArray(a, kind)


# --------------------------------------------------------------------------
# ufuncs
# --------------------------------------------------------------------------
def _k_arith(ks):
    k = promote(*ks)
    return "i" if k == "b" else k


def _k_float(ks):
    return "f"


def _k_bool(ks):
    return "b"


def _k_same(ks):
    return promote(*ks)


def s_sinh(a):
    return s_div(s_sub(s_exp(a), s_exp(s_neg(a))), 2)


def s_cosh(a):
    return s_div(s_add(s_exp(a), s_exp(s_neg(a))), 2)


def s_expm1(a):
    return s_sub(s_exp(a), 1.0)


def s_log1p(a):
    return s_log(s_add(a, 1.0))


def s_deg2rad(a):
    return s_div(s_mul(a, np.pi), 180.0)


def s_hypot(a, b):
    return s_sqrt(s_add(s_mul(a, a), s_mul(b, b)))


def s_bitand(a, b):
    if scalar_kind(a) == "b" and scalar_kind(b) == "b":
        return s_and(a, b)
    raise Unsupported("bitwise_and of integers") if (is_sym(a) or is_sym(b)) else None


def _bit(fn_bool, fn_int, name):
    def f(a, b):
        if scalar_kind(a) == "b" and scalar_kind(b) == "b":
            return fn_bool(a, b)
        if is_sym(a) or is_sym(b):
            raise Unsupported(name + " of symbolic integers")
        return fn_int(int(a), int(b))
    return f


def s_invert(a):
    if scalar_kind(a) == "b":
        return s_not(a)
    return s_sub(s_neg(a), 1)


def s_heaviside(a, b):
    return s_ite(s_lt(a, 0), 0.0, s_ite(s_eq(a, 0), b, 1.0))


def s_signbit(a):
    if type(a) is SymNum and a.kind == "f":
        import z3
        return core.mkbool(z3.fpIsNegative(a.e))
    return s_lt(a, 0)


def s_copysign(a, b):
    r = s_abs(a)
    return s_ite(s_signbit(b), s_neg(r), r)


UF = {
    "add": (s_add, _k_arith), "subtract": (s_sub, _k_arith), "multiply": (s_mul, _k_same),
    "true_divide": (s_div, _k_float), "divide": (s_div, _k_float),
    "floor_divide": (s_floordiv, _k_arith), "remainder": (s_mod, _k_arith),
    "mod": (s_mod, _k_arith), "fmod": (s_fmod, _k_arith), "power": (s_pow, _k_arith),
    "float_power": (s_pow, _k_float),
    "negative": (s_neg, _k_same), "positive": (lambda a: a, _k_same),
    "absolute": (s_abs, _k_same), "fabs": (s_abs, _k_float), "sign": (s_sign, _k_same),
    "exp": (s_exp, _k_float), "log": (s_log, _k_float), "sqrt": (s_sqrt, _k_float),
    "expm1": (s_expm1, _k_float), "log1p": (s_log1p, _k_float),
    "cbrt": (s_cbrt, _k_float), "square": (s_square, _k_same),
    "reciprocal": (lambda a: s_div(1.0, a), _k_float),
    "sin": (s_sin, _k_float), "cos": (s_cos, _k_float), "tan": (s_tan, _k_float),
    "tanh": (s_tanh, _k_float), "sinh": (s_sinh, _k_float), "cosh": (s_cosh, _k_float),
    "arctan": (s_arctan, _k_float), "hypot": (s_hypot, _k_float),
    "deg2rad": (s_deg2rad, _k_float), "radians": (s_deg2rad, _k_float),
    "floor": (s_floor, _k_float), "ceil": (s_ceil, _k_float), "trunc": (s_trunc, _k_float),
    "rint": (s_rint, _k_float),
    "less": (s_lt, _k_bool), "less_equal": (s_le, _k_bool), "greater": (s_gt, _k_bool),
    "greater_equal": (s_ge, _k_bool), "equal": (s_eq, _k_bool), "not_equal": (s_ne, _k_bool),
    "logical_and": (s_and, _k_bool), "logical_or": (s_or, _k_bool),
    "logical_xor": (s_xor, _k_bool), "logical_not": (s_not, _k_bool),
    "bitwise_and": (_bit(s_and, operator.and_, "bitwise_and"), _k_same),
    "bitwise_or": (_bit(s_or, operator.or_, "bitwise_or"), _k_same),
    "bitwise_xor": (_bit(s_xor, operator.xor, "bitwise_xor"), _k_same),
    "invert": (s_invert, _k_same),
    "minimum": (s_minimum, _k_same), "maximum": (s_maximum, _k_same),
    "fmin": (s_fmin, _k_same), "fmax": (s_fmax, _k_same),
    "isnan": (s_isnan, _k_bool), "isinf": (s_isinf, _k_bool), "isfinite": (s_isfinite, _k_bool),
    "signbit": (s_signbit, _k_bool), "copysign": (s_copysign, _k_float),
    "heaviside": (s_heaviside, _k_float),
    "conjugate": (lambda a: a, _k_same),
}
INTEGRAL_OK = {"floor", "ceil", "trunc", "rint"}


def _real_kind(a):
    """kind of an operand, numpy weak-scalar aware enough for our kinds"""
    if type(a) is SymArray:
        return a.kind
    if isinstance(a, np.ndarray) and not is_sym(a):
        return wrap(a).kind
    return scalar_kind(a)


def elementwise(name, args, where=None, outarr=None):
    fn, kf = UF[name]
    args = [wrap(a) if isinstance(a, (list, tuple, range)) else a for a in args]
    ks = [_real_kind(a) for a in args]
    if "O" in ks:
        raise Unsupported("ufunc %s on objects" % name)
    if name == "subtract" and ks == ["b", "b"]:
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported, use the "
                        "bitwise_xor, the `^` operator, or the logical_xor function instead.")
    if name in ("bitwise_and", "bitwise_or", "bitwise_xor", "invert") and "f" in ks:
        raise TypeError("ufunc '%s' not supported for the input types" % name)
    kind = kf(ks)
    if name in INTEGRAL_OK and kind == "f" and ks[0] != "f":
        kind = ks[0]
    if name == "power" and kind == "i" and len(args) == 2:
        for v in obj(args[1]).ravel().tolist():
            if bool(s_lt(v, 0)):
                raise ValueError("Integers to negative integer powers are not allowed.")
    if not any(has_symbols(a) for a in args) and where is None:
        with np.errstate(all="ignore"):
            r = getattr(np, name)(*[concrete(a) for a in args])
        return rewrap(r)
    objs = [obj(a) for a in args]
    b = np.broadcast(*objs) if len(objs) > 1 else None
    if len(objs) == 1:
        res = np.empty(objs[0].shape, dtype=object)
        rf = res.reshape(-1) if res.ndim else None
        if res.ndim == 0:
            res[()] = fn(objs[0][()])
        else:
            for i, v in enumerate(objs[0].ravel().tolist()):
                rf[i] = fn(v)
    else:
        res = np.empty(b.shape, dtype=object)
        vals = [fn(*[t for t in tup]) for tup in b]
        if res.ndim == 0:
            res[()] = vals[0]
        else:
            rf = res.reshape(-1)
            for i, v in enumerate(vals):
                rf[i] = v
    if kind == "f":
        rr = res.reshape(-1) if res.ndim else None
        if rr is None:
            res[()] = cast_scalar(res[()], "f")
        else:
            for i in range(rr.size):
                rr[i] = cast_scalar(rr[i], "f")
    elif kind == "i" and res.ndim:
        rr = res.reshape(-1)
        for i in range(rr.size):
            if scalar_kind(rr[i]) == "b":
                rr[i] = cast_scalar(rr[i], "i")
    return finish(res, kind)


_REDUCE_INIT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def reduce_axis(fn, a, axis, keepdims=False, init=None, empty_msg=None):
    """left fold of fn along axis (None = all); a: object ndarray"""
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(operator.index(x) % a.ndim for x in axis)
    else:
        ax = operator.index(axis)
        if not -a.ndim <= ax < a.ndim:
            raise np.exceptions.AxisError(ax, a.ndim)
        axes = (ax % a.ndim,)
    rest = [i for i in range(a.ndim) if i not in axes]
    m = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1]) if a.ndim else a.reshape(1)
    shp = tuple(a.shape[i] for i in rest)
    res = np.empty(shp, dtype=object)
    for idx in np.ndindex(*shp):
        row = m[idx].tolist() if m.ndim > len(shp) else [m[idx]]
        it = iter(row)
        if init is not None:
            acc = init
        else:
            try:
                acc = next(it)
            except StopIteration:
                raise ValueError(empty_msg or "zero-size array to reduction operation")
        for v in it:
            acc = fn(acc, v)
        res[idx] = acc
    if keepdims:
        res = res.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return res


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = {k: v for k, v in kw.items() if k not in ("casting", "order", "subok", "signature")}
    outv = kw.pop("out", None)
    dtype = kw.pop("dtype", None)
    if isinstance(outv, tuple):
        outv = outv[0] if len(outv) == 1 else outv
    where = kw.pop("where", None)
    if where is True:
        where = None
    if name not in UF:
        if not any(has_symbols(i) for i in inputs) and outv is None and where is None:
            return rewrap(getattr(ufunc, method)(*[concrete(i) for i in inputs], **kw))
        raise Unsupported("ufunc %s" % name)
    fn, kf = UF[name]
    if method == "__call__":
        r = elementwise(name, inputs)
        if dtype is not None:
            r = r.astype(dtype)
        if where is not None:
            if outv is None:
                raise Unsupported("ufunc where= without out=")
            r = FUNCS["where"](where, r, outv)
        if outv is not None:
            o = outv if is_arr(outv) else None
            if o is None:
                raise Unsupported("ufunc out= into a plain ndarray")
            _check_out(name, o, wrap(r).kind)
            o[...] = r
            return o
        return r
    a = wrap(inputs[0])
    axis = kw.pop("axis", 0)
    keepdims = kw.pop("keepdims", False)
    init = kw.pop("initial", None)
    if kw and method != "reduceat":
        kw.pop("keepdims", None)
    if method == "reduce":
        if init is None:
            init = _REDUCE_INIT.get(name)
        if where is not None:
            w = obj(where)
            neutral = init
            aa, ww = np.broadcast_arrays(a._a, w)
            src = np.empty(aa.shape, dtype=object)
            for idx in np.ndindex(*aa.shape):
                src[idx] = s_ite(ww[idx], aa[idx], neutral)
            a = SymArray(src, a.kind)
        r = reduce_axis(fn, a._a, axis, keepdims, init)
        k = kf([a.kind, a.kind])
        res = finish(_cast_arr(r, k), k)
        if outv is not None:
            outv[...] = res
            return outv
        return res
    if method == "accumulate":
        return _accumulate(fn, a, axis, kf([a.kind, a.kind]))
    if method == "outer":
        x, y = wrap(inputs[0]), wrap(inputs[1])
        return elementwise(name, (x.reshape(x.shape + (1,) * y.ndim), y))
    if method == "at":
        tgt, idx = inputs[0], inputs[1]
        iv = wrap(idx)._a.ravel().tolist()
        vals = obj(inputs[2]) if len(inputs) > 2 else None
        for n, i in enumerate(iv):
            i = operator.index(i)
            if vals is None:
                tgt[i] = elementwise(name, (tgt[i],))
            else:
                v = vals[()] if vals.ndim == 0 else vals[n]
                tgt[i] = elementwise(name, (tgt[i], finish(v, "f") if isinstance(v, np.ndarray) else v))
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def _cast_arr(a, k):
    if k not in "bif":
        return a
    f = a.reshape(-1) if a.ndim else None
    if f is None:
        a[()] = cast_scalar(a[()], k) if k != "f" or scalar_kind(a[()]) != "f" else a[()]
    else:
        for i in range(f.size):
            f[i] = cast_scalar(f[i], k)
    return a


def _accumulate(fn, a, axis, kind):
    src = a._a
    if axis is None:
        src, axis = src.ravel(), 0
    res = np.empty(src.shape, dtype=object)
    m, r = np.moveaxis(src, axis, -1), np.moveaxis(res, axis, -1)
    for idx in np.ndindex(*m.shape[:-1]):
        acc = None
        for j in range(m.shape[-1]):
            v = m[idx + (j,)]
            acc = v if acc is None else fn(acc, v)
            r[idx + (j,)] = acc
    return finish(_cast_arr(res, kind), kind)


def ufunc_call(name, *args):
    return elementwise(name, args)


def _check_out(name, o, rkind):
    """numpy same_kind casting rule for in-place results"""
    if _RANK[rkind] > _RANK[o.kind]:
        # raise numpy's own error
        t = np.zeros(1, dtype=_DT[o.kind])
        np.add(t, np.zeros(1, dtype=_DT[rkind]), out=t)
        raise np._core._exceptions._UFuncOutputCastingError(getattr(np, name), "same_kind", _DT[rkind], o.dtype, 0)


# --------------------------------------------------------------------------
# indexing
# --------------------------------------------------------------------------
def _idx_elem(x):
    """normalise one component; returns ('basic', v) / ('int', ndarray obj) / ('bool', SymArray)"""
    if x is None or x is Ellipsis or isinstance(x, slice):
        if isinstance(x, slice):
            x = slice(*[None if v is None else operator.index(v) for v in (x.start, x.stop, x.step)])
        return ("basic", x)
    if type(x) is SymNum:
        if x.kind != "i":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                             "(`None`) and integer or boolean arrays are valid indices")
        return ("sint", x)
    if type(x) is SymBool:
        return ("basic", bool(x))
    if isinstance(x, (bool, np.bool_)):
        return ("basic", bool(x))
    if isinstance(x, (int, np.integer)):
        return ("basic", int(x))
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return ("arr", np.zeros(0, dtype=int))
        x = wrap(x)
    if isinstance(x, np.ndarray) and type(x) is not SymArray and not is_sym(x):
        x = wrap(x)
    if type(x) is SymArray:
        if x.kind == "b":
            if has_symbols(x):
                return ("mask", x)
            return ("arr", x._a.astype(bool))
        if x.kind == "i":
            if has_symbols(x):
                return ("sarr", x._a)
            return ("arr", x._a.astype(int))
        if x._a.size == 0:
            return ("arr", x._a.astype(float))  # numpy raises its own error
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return ("basic", x)


def _fork_mask(m):
    """decide every element of a symbolic mask on this path"""
    r = np.empty(m._a.shape, dtype=bool)
    for idx in np.ndindex(*r.shape):
        r[idx] = bool(m._a[idx])
    return r


def _prepare_index(idx):
    """-> (list of comps, has symbolic ints)"""
    comps = idx if isinstance(idx, tuple) else (idx,)
    res, sym = [], False
    for c in comps:
        t, v = _idx_elem(c)
        if t == "mask":
            v = _fork_mask(v)
            t = "arr"
        if t in ("sint", "sarr"):
            sym = True
        res.append((t, v))
    return res, sym


def _plain_index(res):
    t = tuple(v for _, v in res)
    return t[0] if len(t) == 1 else t


def _expand(res, ndim):
    """replace Ellipsis, boolean arrays -> ints, find axis of each component"""
    n_used = 0
    for t, v in res:
        if v is None or v is Ellipsis:
            continue
        if t == "arr" and v.dtype == bool:
            n_used += v.ndim
        else:
            n_used += 1
    outl = []
    seen = False
    for t, v in res:
        if v is Ellipsis:
            outl += [("basic", slice(None))] * (ndim - n_used)
            seen = True
        elif t == "arr" and v.dtype == bool:
            outl += [("arr", w) for w in np.nonzero(v)]
        else:
            outl.append((t, v))
    if not seen:
        outl += [("basic", slice(None))] * (ndim - n_used)
    return outl


def _norm_sint(s, n):
    """symbolic index into an axis of length n: bounds-check and wrap"""
    if not is_sym(s):
        return operator.index(s)
    if bool(s_or(s_lt(s, -n), s_ge(s, n))):
        raise IndexError("index out of bounds for axis with size %d" % n)
    if eng().implied(core.bexpr(s_ge(s, 0))):
        return s
    return s_ite(s_lt(s, 0), s_add(s, n), s)


def _sym_positions(a, res):
    """advanced indexing with symbolic integers.

    Returns (B, slots, contiguous position, comps) where slots[p] is a list of
    (guard, concrete index tuple) alternatives for advanced position p."""
    comps = _expand(res, a.ndim)
    axis = 0
    adv, axes = [], []
    for ci, (t, v) in enumerate(comps):
        if t == "basic" and v is None:
            continue
        if t in ("arr", "sarr", "sint") or (t == "basic" and isinstance(v, int)):
            adv.append(ci)
            axes.append(axis)
        axis += 1
    arrs = []
    for ci in adv:
        v = comps[ci][1]
        if comps[ci][0] == "sint":
            o = np.empty((), dtype=object)
            o[()] = v
            v = o
        arrs.append(np.asarray(v, dtype=object))
    bc = np.broadcast_arrays(*arrs)
    B = bc[0].shape
    slots = {}
    for p in np.ndindex(*B):
        alts = [(True, {})]
        for ci, ax, arr in zip(adv, axes, bc):
            n = a.shape[ax]
            s = _norm_sint(arr[p], n)
            if is_sym(s):
                nxt = []
                for g, d in alts:
                    for v in range(n):
                        gg = s_and(g, s_eq(s, v))
                        if gg is False:
                            continue
                        nxt.append((gg, {**d, ci: v}))
                alts = nxt
            else:
                alts = [(g, {**d, ci: s}) for g, d in alts]
        slots[p] = [(g, tuple(d[i] if i in d else comps[i][1] for i in range(len(comps))))
                    for g, d in alts]
    contiguous = all(b - a_ == 1 for a_, b in zip(adv, adv[1:]))
    # position of first advanced index in the result
    pos = 0
    if contiguous:
        for i in range(adv[0]):
            pos += 1  # slices and newaxis before it each give one result dim
    return B, slots, (pos if contiguous else 0)


def _ite_arr(alts, vals):
    r = vals[-1]
    for (g, _), v in zip(reversed(alts[:-1]), reversed(vals[:-1])):
        if isinstance(r, np.ndarray) and not is_sym(r):
            new = np.empty(r.shape, dtype=object)
            for i in np.ndindex(*r.shape):
                new[i] = s_ite(g, v[i], r[i])
            r = new
        else:
            r = s_ite(g, v, r)
    return r


class _Flags:
    writeable = True
    c_contiguous = True
    owndata = True

    def __getitem__(self, k):
        return True


class SymArray:
    __slots__ = ("_a", "kind", "__weakref__")
    __array_priority__ = 10000
    __hash__ = None

    def __init__(self, a, kind):
        self._a = a
        self.kind = kind

    @property
    def __class__(self):
        return np.ndarray

    # -- protocol -----------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        if has_symbols(self):
            raise Unsupported("conversion of a symbolic array to a plain ndarray")
        r = concrete(self)
        return r if dtype is None else r.astype(dtype)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(np.ndarray, name):
            raise Unsupported("ndarray.%s" % name)
        raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % name)

    # -- attributes -----------------------------------------------------------
    @property
    def shape(self):
        return self._a.shape

    @shape.setter
    def shape(self, s):
        self._a.shape = s

    @property
    def ndim(self):
        return self._a.ndim

    @property
    def size(self):
        return self._a.size

    @property
    def dtype(self):
        return _DT[self.kind]

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return 8 * self._a.size

    @property
    def T(self):
        return SymArray(self._a.T, self.kind)

    mT = T

    @property
    def real(self):
        return self

    @property
    def flags(self):
        return _Flags()

    @property
    def base(self):
        return self._a.base

    @property
    def flat(self):
        return SymArray(self._a.reshape(-1), self.kind)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self._a.shape[0]):
            yield self[i]

    def __bool__(self):
        if self._a.size == 0:
            raise ValueError("The truth value of an empty array is ambiguous. Use `array.size > 0` "
                             "to check that an array is not empty.")
        if self._a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return bool(self._a.reshape(-1)[0])

    def __index__(self):
        if self._a.ndim == 0:
            return operator.index(self._a[()])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        if self._a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(self._a.reshape(-1)[0])

    def __float__(self):
        if self._a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self._a.reshape(-1)[0])

    def __repr__(self):
        return "array<sym %s>" % (self._a.shape,)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __contains__(self, v):
        return bool(elementwise("equal", (self, v)).any())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    # -- indexing -----------------------------------------------------------
    def __getitem__(self, idx):
        if isinstance(idx, str):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                             "(`None`) and integer or boolean arrays are valid indices")
        res, sym = _prepare_index(idx)
        if not sym:
            r = self._a[_plain_index(res)]
            return finish(r, self.kind) if (isinstance(r, np.ndarray) and not is_sym(r) and r.ndim) \
                else out(r[()] if isinstance(r, np.ndarray) and not is_sym(r) else r, self.kind)
        if len(res) == 1 and res[0][0] == "sint" and self._a.ndim == 1:
            n = self._a.shape[0]
            s = _norm_sint(res[0][1], n)
            r = self._a[n - 1]
            for v in range(n - 2, -1, -1):
                r = s_ite(s_eq(s, v), self._a[v], r)
            return out(r, self.kind)
        B, slots, pos = _sym_positions(self._a, res)
        parts = {}
        for p, alts in slots.items():
            parts[p] = _ite_arr(alts, [self._a[i] for _, i in alts])
        if not parts:
            raise Unsupported("empty symbolic index")
        first = next(iter(parts.values()))
        sub = first.shape if isinstance(first, np.ndarray) and not is_sym(first) else ()
        r = np.empty(B + sub, dtype=object)
        for p, v in parts.items():
            r[p] = v
        if len(B) and pos:
            r = np.moveaxis(r, range(len(B)), range(pos, pos + len(B)))
        return finish(r, self.kind)

    def _cast_in(self, v):
        if self.kind == "O":
            return v
        if self.kind == "i" and scalar_kind(v) == "f":
            return cast_scalar(v, "i")
        return cast_scalar(v, self.kind)

    def _cast_val(self, val):
        w = wrap(val)
        if w.kind == self.kind or self.kind == "O":
            return w._a
        r = np.empty(w._a.shape, dtype=object)
        for i in np.ndindex(*w._a.shape):
            r[i] = self._cast_in(w._a[i])
        return r

    def __setitem__(self, idx, val):
        comps = idx if isinstance(idx, tuple) else (idx,)
        vv = self._cast_val(val)
        # symbolic mask covering the leading axes: element-wise ite
        if len(comps) == 1:
            t, m = _idx_elem(comps[0])
            if t == "mask":
                sub = self._a.shape[m._a.ndim:]
                if m._a.shape != self._a.shape[:m._a.ndim]:
                    raise IndexError("boolean index did not match indexed array")
                v = vv
                if v.ndim == len(sub) + 1 and v.shape[0] == 1:
                    v = v[0]
                ok = v.ndim <= len(sub)
                if ok:
                    b = np.broadcast_to(v, sub) if v.shape != sub else v
                    for p in np.ndindex(*m._a.shape):
                        g = m._a[p]
                        if not is_sym(g):
                            if bool(g):
                                self._a[p] = b if sub else b[()]
                            continue
                        if sub:
                            for q in np.ndindex(*sub):
                                self._a[p + q] = s_ite(g, b[q], self._a[p + q])
                        else:
                            self._a[p] = s_ite(g, b[()], self._a[p])
                    return
        res, sym = _prepare_index(idx)
        if not sym:
            self._a[_plain_index(res)] = vv if vv.ndim else vv[()]
            return
        B, slots, pos = _sym_positions(self._a, res)
        sub = None
        for p, alts in slots.items():
            s0 = self._a[alts[0][1]]
            sub = s0.shape if isinstance(s0, np.ndarray) and not is_sym(s0) else ()
            break
        if sub is None:
            return
        if len(B) and pos and vv.ndim:
            raise Unsupported("assignment through interleaved symbolic indices")
        val_b = np.broadcast_to(vv, B + sub)
        for p, alts in slots.items():
            for g, i in alts:
                if sub:
                    tgt = self._a[i]
                    src = val_b[p]
                    for q in np.ndindex(*sub):
                        tgt[q] = s_ite(g, src[q], tgt[q])
                else:
                    v = val_b[p]
                    v = v[()] if isinstance(v, np.ndarray) and not is_sym(v) else v
                    self._a[i] = s_ite(g, v, self._a[i])

    # -- methods --------------------------------------------------------------
    def copy(self, order="C"):
        return SymArray(self._a.copy(), self.kind)

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        k = dt if dt in ("b", "i", "f", "O") and isinstance(dt, str) else kind_of_dtype(dt)
        if k == self.kind:
            return self.copy() if copy else self
        r = np.empty(self._a.shape, dtype=object)
        for i in np.ndindex(*self._a.shape):
            r[i] = cast_scalar(self._a[i], k)
        return SymArray(r, k)

    def view(self, *a, **k):
        if a and a[0] is not np.ndarray:
            raise Unsupported("ndarray.view(type)")
        return SymArray(self._a[...], self.kind)

    def item(self, *a):
        if a:
            return self._a[a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)]
        if self._a.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self._a.reshape(-1)[0]

    def tolist(self):
        return self._a.tolist()

    def fill(self, v):
        self[...] = v

    def reshape(self, *s, order="C", copy=None):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = tuple(operator.index(x) for x in s)
        return SymArray(self._a.reshape(s, order=order), self.kind)

    def ravel(self, order="C"):
        return SymArray(self._a.ravel(order), self.kind)

    def flatten(self, order="C"):
        return SymArray(self._a.flatten(order), self.kind)

    def transpose(self, *ax):
        return SymArray(self._a.transpose(*ax), self.kind)

    def swapaxes(self, a, b):
        return SymArray(self._a.swapaxes(a, b), self.kind)

    def squeeze(self, axis=None):
        r = self._a.squeeze() if axis is None else self._a.squeeze(axis)
        return SymArray(r, self.kind)

    def repeat(self, n, axis=None):
        return SymArray(self._a.repeat(concrete(n), axis), self.kind)

    def diagonal(self, *a, **k):
        return SymArray(self._a.diagonal(*a, **k), self.kind)

    def take(self, idx, axis=None, **k):
        return FUNCS["take"](self, idx, axis=axis)

    def dot(self, o):
        return FUNCS["dot"](self, o)

    def __matmul__(self, o):
        return FUNCS["matmul"](self, o)

    def __rmatmul__(self, o):
        return FUNCS["matmul"](o, self)

    def sort(self, axis=-1, **k):
        self._a[...] = FUNCS["sort"](self, axis=axis)._a

    def argpartition(self, kth, axis=-1, **k):
        return FUNCS["argsort"](self, axis=axis)

    def partition(self, kth, axis=-1, **k):
        self.sort(axis)

    def conj(self):
        return self

    def put(self, ind, v, **k):
        f = SymArray(self._a.reshape(-1), self.kind)
        f[ind] = v


def _method(name):
    def m(self, *a, **k):
        return FUNCS[name](self, *a, **k)
    m.__name__ = name
    return m


for _n in ("sum", "prod", "mean", "var", "std", "min", "max", "argmin", "argmax", "any", "all",
           "cumsum", "cumprod", "argsort", "nonzero", "clip", "round", "ptp", "searchsorted",
           "compress", "trace"):
    setattr(SymArray, _n, _method(_n))


def _install():
    ops = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "true_divide",
           "floordiv": "floor_divide", "mod": "remainder", "pow": "power",
           "and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor"}

    def mk(uf):
        def fwd(self, o, mod=None):
            if o is None or isinstance(o, (str, dict)) or getattr(type(o), "_masked", False):
                return NotImplemented
            return elementwise(uf, (self, o))

        def rev(self, o, mod=None):
            if o is None or isinstance(o, (str, dict)):
                return NotImplemented
            return elementwise(uf, (o, self))

        def inp(self, o):
            r = elementwise(uf, (self, o))
            _check_out(uf, self, wrap(r).kind)
            rs = obj(r)
            if np.broadcast_shapes(rs.shape, self._a.shape) != self._a.shape:
                raise ValueError("non-broadcastable output operand")
            if self._a.ndim == 0:
                self._a[()] = self._cast_in(rs[()])
            else:
                self._a[...] = self._cast_val(r)
            return self

        return fwd, rev, inp

    for op, uf in ops.items():
        f, r, i = mk(uf)
        setattr(SymArray, "__%s__" % op, f)
        setattr(SymArray, "__r%s__" % op, r)
        setattr(SymArray, "__i%s__" % op, i)
    cmps = {"lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal",
            "eq": "equal", "ne": "not_equal"}

    def mkc(uf):
        def cmp(self, o):
            if o is None or isinstance(o, str):
                r = np.full(self._a.shape, uf == "not_equal", dtype=object)
                return SymArray(r, "b")
            return elementwise(uf, (self, o))
        return cmp

    for c, uf in cmps.items():
        setattr(SymArray, "__%s__" % c, mkc(uf))
    SymArray.__neg__ = lambda self: elementwise("negative", (self,))
    SymArray.__pos__ = lambda self: self.copy()
    SymArray.__abs__ = lambda self: elementwise("absolute", (self,))
    SymArray.__invert__ = lambda self: elementwise("invert", (self,))
    SymArray.__divmod__ = lambda self, o: (self // o, self % o)


_install()


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------
FUNCS = {}


def func(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


@func("where")
def _where(c, x=None, y=None):
    if x is None and y is None:
        return _nonzero(c)
    c, x, y = wrap(c), wrap(x), wrap(y)
    k = promote(x.kind, y.kind)
    b = np.broadcast(c._a, x._a, y._a)
    r = np.empty(b.shape, dtype=object)
    vals = [cast_scalar(s_ite(_truth(ci), xi, yi), k) for ci, xi, yi in b]
    if r.ndim == 0:
        return out(vals[0], k)
    rf = r.reshape(-1)
    for i, v in enumerate(vals):
        rf[i] = v
    return SymArray(r, k)


def _truth(c):
    if is_sym(c):
        return c if type(c) is SymBool else s_ne(c, 0)
    return bool(c)


def _bools(a):
    """concrete bool ndarray, forking on symbolic elements"""
    a = wrap(a)
    r = np.empty(a._a.shape, dtype=bool)
    for i in np.ndindex(*r.shape):
        r[i] = bool(_truth(a._a[i]))
    return r


@func("nonzero")
def _nonzero(a):
    return tuple(wrap(x) for x in np.nonzero(_bools(a)))


@func("flatnonzero")
def _flatnonzero(a):
    return wrap(np.flatnonzero(_bools(a)))


@func("argwhere")
def _argwhere(a):
    return wrap(np.argwhere(_bools(a)))


@func("count_nonzero")
def _count_nonzero(a, axis=None, keepdims=False):
    a = wrap(a)
    t = SymArray(_map(a._a, lambda v: cast_scalar(_truth(v), "i")), "i")
    return _sum(t, axis=axis, keepdims=keepdims)


def _map(a, f):
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        r[i] = f(a[i])
    return r


def _put_out(r, o):
    if o is not None:
        o[...] = r
        return o
    return r


@func("any")
def _any(a, axis=None, out=None, keepdims=False, where=True):
    a = wrap(a)
    return _put_out(finish(reduce_axis(s_or, _map(a._a, _truth), axis, keepdims, False), "b"), out)


@func("all")
def _all(a, axis=None, out=None, keepdims=False, where=True):
    a = wrap(a)
    return _put_out(finish(reduce_axis(s_and, _map(a._a, _truth), axis, keepdims, True), "b"), out)


@func("sum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    a = wrap(a)
    if dtype is not None:
        a = a.astype(dtype)
    k = "i" if a.kind == "b" else a.kind
    src = a._a
    if where is not None and where is not True:
        src = _where(where, a, 0 if k == "i" else 0.0)._a
    init = 0 if k == "i" else None
    if src.size == 0:
        init = 0 if k == "i" else 0.0
    r = reduce_axis(s_add, src, axis, keepdims, init if initial is None else initial)
    return _put_out(finish(_cast_arr(r, k), k), out)


@func("prod")
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    a = wrap(a)
    k = "i" if a.kind == "b" else a.kind
    r = reduce_axis(s_mul, a._a, axis, keepdims, 1 if k == "i" else 1.0)
    return _put_out(finish(_cast_arr(r, k), k), out)


def _axis_len(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, (tuple, list)):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[operator.index(axis)]


@func("mean")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    a = wrap(a).astype("f")
    n = _axis_len(a._a, axis)
    if n == 0:
        return np.float64(np.nan)
    if any(type(v) is SymNum and v.kind == "f" for v in a._a.ravel().tolist()):
        s = _sum(a, axis=axis, keepdims=keepdims)
        return _put_out(elementwise("true_divide", (s, float(n))), out)
    return _put_out(elementwise("true_divide", (_sum(a, axis=axis, keepdims=keepdims), float(n))), out)


@func("average")
def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis=axis)
    a, w = wrap(a), wrap(weights)
    return elementwise("true_divide", (_sum(a * w, axis=axis), _sum(w, axis=axis)))


@func("var")
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = wrap(a).astype("f")
    m = _mean(a, axis=axis, keepdims=True) if a.ndim else a
    d = a - m
    return elementwise("true_divide", (_sum(d * d, axis=axis, keepdims=keepdims), float(_axis_len(a._a, axis) - ddof)))


@func("std")
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return elementwise("sqrt", (_var(a, axis=axis, ddof=ddof, keepdims=keepdims),))


def _minmax(fn, name):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=None):
        a = wrap(a)
        src = a._a
        if where is not None and where is not True:
            if initial is None:
                raise ValueError("reduction operation has no identity, so to use a where mask "
                                 "one has to specify 'initial'")
            src = _where(where, a, initial)._a
        r = reduce_axis(fn, src, axis, keepdims, initial,
                        "zero-size array to reduction operation %s which has no identity" % name)
        return _put_out(finish(r, a.kind), out)
    return f


FUNCS["min"] = FUNCS["amin"] = _minmax(s_minimum, "minimum")
FUNCS["max"] = FUNCS["amax"] = _minmax(s_maximum, "maximum")
FUNCS["nanmin"] = _minmax(s_fmin, "fmin")
FUNCS["nanmax"] = _minmax(s_fmax, "fmax")


@func("ptp")
def _ptp(a, axis=None, **k):
    return FUNCS["max"](a, axis=axis) - FUNCS["min"](a, axis=axis)


def _arg_reduce(better, nan_wins):
    def one(row):
        best, bi = row[0], 0
        for i, v in enumerate(row[1:], 1):
            c = better(v, best)
            if nan_wins:
                c = s_and(s_not(s_isnan(best)), s_or(c, s_isnan(v)))
            bi = s_ite(c, i, bi)
            best = s_ite(c, v, best)
        return bi

    def f(a, axis=None, out=None, keepdims=False):
        a = wrap(a)
        src = a._a
        if src.size == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
        if a.kind == "b":
            src = _map(src, lambda v: cast_scalar(v, "i"))
        if axis is None:
            r = one(src.reshape(-1).tolist())
            if keepdims:
                o = np.empty((1,) * src.ndim, dtype=object)
                o[...] = r
                return SymArray(o, "i")
            return globals()["out"](r, "i")
        ax = operator.index(axis) % src.ndim
        m = np.moveaxis(src, ax, -1)
        res = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(*res.shape):
            res[i] = one(m[i].tolist())
        if keepdims:
            res = np.expand_dims(res, ax)
        return finish(res, "i")
    return f


FUNCS["argmin"] = _arg_reduce(lambda v, b: s_lt(v, b), True)
FUNCS["argmax"] = _arg_reduce(lambda v, b: s_gt(v, b), True)


def _nanarg(base, sub):
    def f(a, axis=None, **k):
        a = wrap(a)
        allnan = _all(elementwise("isnan", (a,)), axis=axis)
        if bool(_any(allnan)):
            raise ValueError("All-NaN slice encountered")
        return FUNCS[base](_where(elementwise("isnan", (a,)), sub, a), axis=axis)
    return f


FUNCS["nanargmin"] = _nanarg("argmin", np.inf)
FUNCS["nanargmax"] = _nanarg("argmax", -np.inf)


def _sort_lt(a, b):
    """numpy order: NaN last"""
    return s_or(s_lt(a, b), s_and(s_isnan(b), s_not(s_isnan(a))))


def _ranks(row):
    """stable ranks as symbolic ints"""
    n = len(row)
    rk = []
    for i in range(n):
        r = 0
        for j in range(n):
            if i == j:
                continue
            if j < i:  # j goes before i unless i strictly smaller
                c = s_not(_sort_lt(row[i], row[j]))
            else:
                c = _sort_lt(row[j], row[i])
            r = s_add(r, s_ite(c, 1, 0))
        rk.append(r)
    return rk


def _along(a, axis, f):
    src = a._a
    if axis is None:
        src, axis = src.reshape(-1), 0
    m = np.moveaxis(src, operator.index(axis), -1)
    res = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        row = f(m[i].tolist())
        for j, v in enumerate(row):
            res[i + (j,)] = v
    return np.moveaxis(res, -1, operator.index(axis))


@func("argsort")
def _argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = wrap(a)

    def f(row):
        rk = _ranks(row)
        outl = []
        for p in range(len(row)):
            r = len(row) - 1
            for i in range(len(row) - 2, -1, -1):
                r = s_ite(s_eq(rk[i], p), i, r)
            outl.append(r)
        return outl
    return SymArray(_along(a, axis, f), "i")


@func("argpartition")
def _argpartition(a, kth, axis=-1, **k):
    return _argsort(a, axis=axis)


@func("sort", "partition", "msort")
def _sort(a, axis=-1, kind=None, order=None, stable=None, kth=None):
    a = wrap(a)

    def f(row):
        rk = _ranks(row)
        outl = []
        for p in range(len(row)):
            r = row[-1]
            for i in range(len(row) - 2, -1, -1):
                r = s_ite(s_eq(rk[i], p), row[i], r)
            outl.append(r)
        return outl
    return SymArray(_along(a, axis, f), a.kind)


FUNCS["partition"] = lambda a, kth, axis=-1, **k: _sort(a, axis=axis)


@func("unique")
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if return_index or return_inverse or return_counts or axis is not None:
        raise Unsupported("np.unique options on symbols")
    vals = []
    for v in _sort(wrap(a), axis=None)._a.tolist():
        if not vals or not bool(s_eq(vals[-1], v)):
            vals.append(v)
    return wrap(vals, wrap(a).kind)


@func("isin", "in1d")
def _isin(a, test, **k):
    a, t = wrap(a), wrap(test)._a.reshape(-1).tolist()

    def f(v):
        r = False
        for w in t:
            r = s_or(r, s_eq(v, w))
        return s_not(r) if k.get("invert") else r
    return finish(_map(a._a, f), "b")


@func("setdiff1d")
def _setdiff1d(a, b, **k):
    u = _unique(a)
    m = _isin(u, b)
    return u[elementwise("logical_not", (m,))]


@func("cumsum")
def _cumsum(a, axis=None, **k):
    a = wrap(a)
    return _accumulate(s_add, a, axis, "i" if a.kind == "b" else a.kind)


@func("cumprod")
def _cumprod(a, axis=None, **k):
    a = wrap(a)
    return _accumulate(s_mul, a, axis, "i" if a.kind == "b" else a.kind)


@func("diff")
def _diff(a, n=1, axis=-1, **k):
    a = wrap(a)
    for _ in range(n):
        m = SymArray(np.moveaxis(a._a, axis, -1), a.kind)
        r = m[..., 1:] - m[..., :-1]
        a = SymArray(np.moveaxis(r._a, -1, axis), r.kind)
    return a


@func("clip")
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = elementwise("maximum", (r, lo))
    if hi is not None:
        r = elementwise("minimum", (r, hi))
    return _put_out(r, out)


@func("round", "around", "round_")
def _round(a, decimals=0, out=None):
    if decimals:
        raise Unsupported("np.round with decimals on symbols")
    return _put_out(elementwise("rint", (a,)), out)


@func("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = wrap(a), wrap(b)
    near = elementwise("less_equal", (abs(a - b), atol + rtol * abs(b)))
    near = elementwise("logical_and", (near, elementwise("isfinite", (b,))))
    r = elementwise("logical_or", (near, elementwise("equal", (a, b))))
    if equal_nan:
        r = elementwise("logical_or", (r, elementwise("logical_and", (elementwise("isnan", (a,)), elementwise("isnan", (b,))))))
    return r


@func("allclose")
def _allclose(a, b, **k):
    return _all(_isclose(a, b, **k))


@func("array_equal")
def _array_equal(a, b, **k):
    a, b = wrap(a), wrap(b)
    if a.shape != b.shape:
        return False
    return _all(elementwise("equal", (a, b)))


@func("take")
def _take(a, idx, axis=None, **k):
    a = wrap(a)
    if axis is None:
        return SymArray(a._a.reshape(-1), a.kind)[idx if not isinstance(idx, (list, tuple)) else wrap(idx)]
    ix = (slice(None),) * (operator.index(axis) % a.ndim) + (idx if not isinstance(idx, (list, tuple)) else wrap(idx),)
    return a[ix]


@func("take_along_axis")
def _take_along(a, idx, axis=-1):
    a, idx = wrap(a), wrap(idx)
    if axis is None:
        return SymArray(a._a.reshape(-1), a.kind)[idx.reshape(-1)]
    ax = axis % a.ndim
    ix = []
    for d in range(a.ndim):
        if d == ax:
            ix.append(idx)
        else:
            ix.append(wrap(np.arange(a.shape[d]).reshape([-1 if e == d else 1 for e in range(a.ndim)])))
    return a[tuple(ix)]


@func("put_along_axis")
def _put_along(a, idx, values, axis=-1):
    idx = wrap(idx)
    ax = axis % a.ndim
    ix = []
    for d in range(a.ndim):
        ix.append(idx if d == ax else wrap(np.arange(a.shape[d]).reshape(
            [-1 if e == d else 1 for e in range(a.ndim)])))
    a[tuple(ix)] = values


@func("choose")
def _choose(idx, choices, **k):
    idx = wrap(idx)
    r = wrap(choices[-1])
    for i in range(len(choices) - 2, -1, -1):
        r = _where(idx == i, choices[i], r)
    return r


@func("select")
def _select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = _where(c, v, r)
    return r


@func("copyto")
def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where(where, src, dst)


@func("putmask")
def _putmask(a, mask, values):
    a[...] = _where(mask, values, a)


@func("place")
def _place(a, mask, vals):
    a[_bools(mask)] = vals


@func("extract")
def _extract(cond, a):
    return wrap(a).reshape(-1)[wrap(cond).reshape(-1)]


@func("compress")
def _compress(cond, a, axis=None, **k):
    if isinstance(cond, (SymArray,)) is False and is_arr(cond) is False:
        cond = wrap(cond)
    # method form: self first
    if is_arr(cond) and is_arr(a) and cond.kind != "b" and wrap(a).kind == "b":
        cond, a = a, cond
    ix = np.flatnonzero(_bools(cond))
    return _take(a, wrap(ix), axis=axis)


@func("dot")
def _dot(a, b, out=None):
    a, b = wrap(a), wrap(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return _sum(a * b)
    return _matmul(a, b)


@func("vdot")
def _vdot(a, b, **k):
    return _sum(wrap(a).ravel() * wrap(b).ravel())


@func("inner")
def _inner(a, b, **k):
    a, b = wrap(a), wrap(b)
    if a.ndim == 1 and b.ndim == 1:
        return _sum(a * b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 2 and b.ndim == 2:
        return _matmul(a, b.transpose())
    if a.ndim == 2 and b.ndim == 1:
        return _matmul(a, b)
    raise Unsupported("inner product of that rank")


@func("matmul")
def _matmul(a, b, **k):
    a, b = wrap(a), wrap(b)
    if a.ndim == 1 and b.ndim == 1:
        return _sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return _sum(a * b, axis=1)
    if a.ndim == 1 and b.ndim == 2:
        return _sum(a.reshape(-1, 1) * b, axis=0)
    if a.ndim == 2 and b.ndim == 2:
        x = a.reshape(a.shape[0], a.shape[1], 1)
        y = b.reshape(1, b.shape[0], b.shape[1])
        return _sum(x * y, axis=1)
    raise Unsupported("matmul of higher rank")


@func("outer")
def _outer(a, b, **k):
    return wrap(a).reshape(-1, 1) * wrap(b).reshape(1, -1)


@func("einsum")
def _einsum(spec, *ops, **k):
    if not isinstance(spec, str) or "." in spec:
        raise Unsupported("einsum in that form")
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ops = [wrap(o) for o in ops]
    size = {}
    for names, o in zip(ins, ops):
        for c, n in zip(names, o.shape):
            if size.setdefault(c, n) not in (n, 1) and n != 1:
                raise ValueError("operands could not be broadcast together")
            size[c] = max(size[c], n)
    bound = [c for c in size if c not in out]
    order = list(out) + bound
    total = None
    for names, o in zip(ins, ops):
        if len(set(names)) < len(names):  # a diagonal
            ix = np.indices([size[c] for c in dict.fromkeys(names)])
            where = dict(zip(dict.fromkeys(names), ix))
            o, names = o[tuple(where[c] for c in names)], "".join(dict.fromkeys(names))
        o = o.transpose(sorted(range(len(names)), key=lambda i: order.index(names[i])))
        o = o.reshape([size[c] if c in names else 1 for c in order])
        total = o if total is None else total * o
    if bound:
        total = _sum(total, axis=tuple(range(len(out), len(order))))
    return total


@func("interp")
def _interp(*a, **k):
    raise Unsupported("interp on symbols")


@func("searchsorted")
def _searchsorted(a, v, side="left", sorter=None):
    a, vs = wrap(a)._a.tolist(), wrap(v)

    def f(x):
        r = 0
        for y in a:
            c = s_lt(y, x) if side == "left" else s_le(y, x)
            r = s_add(r, s_ite(c, 1, 0))
        return r
    return finish(_map(vs._a, f), "i")


@func("trace")
def _trace(a, **k):
    return _sum(wrap(a).diagonal())


@func("fill_diagonal")
def _fill_diagonal(a, v, wrap=False):
    n = min(a.shape)
    for i in range(n):
        a[i, i] = v


@func("linspace")
def _linspace(a, b, num=50, endpoint=True, **k):
    d = num - 1 if endpoint else num
    step = s_div(s_sub(b, a), d) if d else 0.0
    return wrap([s_add(a, s_mul(step, i)) for i in range(num)], "f")


@func("nan_to_num")
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = wrap(x)
    big = np.finfo(float).max
    r = _where(elementwise("isnan", (x,)), nan, x)
    r = _where(s_or_arr(elementwise("equal", (r, np.inf))), big if posinf is None else posinf, r)
    return _where(elementwise("equal", (r, -np.inf)), -big if neginf is None else neginf, r)


def s_or_arr(x):
    return x


@func("norm")
def _norm(x, ord=None, axis=None, keepdims=False):
    x = wrap(x)
    if axis is None and ord is None or x.ndim == 1 and ord is None:
        return elementwise("sqrt", (_sum(x * x, axis=axis, keepdims=keepdims),))
    if axis is None and x.ndim > 1 or isinstance(axis, tuple):
        raise Unsupported("matrix norms")
    if ord is None or ord == 2:
        return elementwise("sqrt", (_sum(x * x, axis=axis, keepdims=keepdims),))
    if ord == 1:
        return _sum(abs(x), axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return FUNCS["max"](abs(x), axis=axis, keepdims=keepdims)
    if ord == -np.inf:
        return FUNCS["min"](abs(x), axis=axis, keepdims=keepdims)
    return elementwise("power", (_sum(elementwise("power", (abs(x), ord)), axis=axis, keepdims=keepdims), 1.0 / ord))


@func("apply_along_axis")
def _apply_along(f, axis, a, *args, **k):
    a = wrap(a)
    m = np.moveaxis(a._a, axis, -1)
    rows = {}
    for i in np.ndindex(*m.shape[:-1]):
        rows[i] = f(SymArray(m[i], a.kind), *args, **k)
    first = wrap(next(iter(rows.values())))
    r = np.empty(m.shape[:-1] + first.shape, dtype=object)
    for i, v in rows.items():
        r[i] = obj(v) if wrap(v).ndim else obj(v)[()]
    nd = len(m.shape) - 1
    if first.ndim:
        r = np.moveaxis(r, range(nd, r.ndim), range(axis, axis + first.ndim)) if axis % a.ndim != nd else r
    return SymArray(r, first.kind)


@func("vectorize")
def _vectorize(f, *a, **k):
    raise Unsupported("np.vectorize")


@func("iscomplexobj")
def _iscomplexobj(x):
    return False


@func("isrealobj")
def _isrealobj(x):
    return True


@func("isscalar")
def _isscalar(x):
    return is_sym(x) or np.isscalar(x)


@func("ndim")
def _ndim(a):
    return wrap(a).ndim


@func("shape")
def _shape(a):
    return wrap(a).shape


@func("size")
def _size(a, axis=None):
    a = wrap(a)
    return a.size if axis is None else a.shape[axis]


@func("copy")
def _copy(a, order="K", subok=False):
    return wrap(a).copy()


@func("full_like")
def _full_like(a, fill, dtype=None, order="K", subok=True, shape=None):
    a = wrap(a)
    k = kind_of_dtype(dtype) if dtype is not None else a.kind
    r = np.empty(a.shape if shape is None else shape, dtype=object)
    s = SymArray(r, k)
    s[...] = fill
    return s


FUNCS["zeros_like"] = lambda a, dtype=None, **k: _full_like(a, 0, dtype, shape=k.get("shape"))
FUNCS["ones_like"] = lambda a, dtype=None, **k: _full_like(a, 1, dtype, shape=k.get("shape"))
FUNCS["empty_like"] = FUNCS["zeros_like"]


@func("array", "asarray", "asanyarray", "ascontiguousarray", "asfarray", "require")
def _array(x, dtype=None, copy=None, order="K", subok=False, ndmin=0, like=None):
    k = None
    if dtype is not None:
        k = kind_of_dtype(dtype)
        if k == "O":
            if isinstance(x, (list, tuple)):
                try:
                    r = wrap(x)
                    return SymArray(r._a.copy(), "O")
                except ValueError:
                    a = np.empty(len(x), dtype=object)
                    for i, v in enumerate(x):
                        a[i] = v
                    return SymArray(a, "O")
    if type(x) is SymArray:
        r = x.astype(k) if k is not None and k != x.kind else x.copy()
    elif isinstance(x, (str, dict)) or x is None or (callable(x) and not is_sym(x)):
        return np.array(x)
    else:
        r = wrap(x)
        if r is x:
            r = r.copy()
        if k is not None and k != r.kind:
            r = r.astype(k)
    while r.ndim < ndmin:
        r = SymArray(r._a[np.newaxis], r.kind)
    return r


def _asarray(x, dtype=None, *a, **k):
    if type(x) is SymArray and (dtype is None or kind_of_dtype(dtype) == x.kind):
        return x
    return _array(x, dtype)


FUNCS["asarray"] = FUNCS["asanyarray"] = FUNCS["ascontiguousarray"] = _asarray


@func("full")
def _full(shape, fill_value, dtype=None, order="C", **k):
    kk = kind_of_dtype(dtype) if dtype is not None else wrap(fill_value).kind
    shape = concrete(shape)
    r = SymArray(np.empty(shape, dtype=object), kk)
    r[...] = fill_value
    return r


@func("broadcast_to")
def _broadcast_to(a, shape, subok=False):
    a = wrap(a)
    return SymArray(np.broadcast_to(a._a, shape), a.kind)


@func("broadcast_arrays")
def _broadcast_arrays(*arrs, **k):
    ws = [wrap(a) for a in arrs]
    return tuple(SymArray(r, w.kind) for r, w in zip(np.broadcast_arrays(*[w._a for w in ws]), ws))


@func("fromiter")
def _fromiter(it, dtype, count=-1, **k):
    l = []
    for v in it:
        if count >= 0 and len(l) >= count:
            break
        l.append(v)
    return wrap(l, kind_of_dtype(dtype)) if l else wrap(np.empty(0, dtype=_DT[kind_of_dtype(dtype)]))


@func("fromfunction")
def _fromfunction(f, shape, dtype=float, **k):
    args = np.indices(shape).astype(dtype)
    return f(*[wrap(a) for a in args], **k)


@func("may_share_memory", "shares_memory")
def _share(a, b, **k):
    return np.may_share_memory(obj(a), obj(b))


@func("result_type")
def _result_type(*a):
    return _DT[promote(*[_real_kind(x) if not isinstance(x, (type, np.dtype)) else kind_of_dtype(x) for x in a])]


@func("pad")
def _pad(*a, **k):
    raise Unsupported("np.pad on symbols")


@func("array_split", "split")
def _array_split(a, n, axis=0):
    a = wrap(a)
    parts = np.array_split(a._a, concrete(n), axis) if True else None
    return [SymArray(p, a.kind) for p in parts]


def _split_exact(a, n, axis=0):
    a = wrap(a)
    return [SymArray(p, a.kind) for p in np.split(a._a, concrete(n), axis)]


FUNCS["split"] = _split_exact

STRUCTURAL_SEQ = {"concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "block",
                  "row_stack", "append", "insert", "concat"}
STRUCTURAL = {"reshape", "ravel", "tile", "repeat", "transpose", "swapaxes", "moveaxis", "rollaxis",
              "squeeze", "expand_dims", "atleast_1d", "atleast_2d", "atleast_3d", "flip", "fliplr",
              "flipud", "roll", "rot90", "diag", "diagonal", "triu", "tril", "delete", "resize",
              "vsplit", "hsplit", "dsplit", "meshgrid", "permute_dims", "diagflat", "kron", "unstack",
              "matrix_transpose"}


def _unobj(x, kinds):
    if type(x) is SymArray:
        kinds.append(x.kind)
        return x._a
    if is_sym(x):
        kinds.append(scalar_kind(x))
        return obj(x)
    if isinstance(x, np.ndarray):
        w = wrap(x)
        kinds.append(w.kind)
        return w._a
    if isinstance(x, (list, tuple)):
        if has_symbols(x) or any(type(v) is SymArray for v in x):
            return type(x)(_unobj(v, kinds) for v in x) if type(x) in (list, tuple) else x
        return x
    return x


def structural(name, args, kwargs):
    kinds = []
    f = getattr(np, name)
    if name in STRUCTURAL_SEQ or name == "meshgrid":
        if name in STRUCTURAL_SEQ:
            seq = args[0] if not isinstance(args[0], SymArray) or name in ("append", "insert") else list(args[0])
            if type(args[0]) is SymArray and name not in ("append", "insert"):
                seq = [v for v in args[0]]
            if name in ("append", "insert"):
                a0 = _unobj(wrap(args[0]), kinds)
                rest = [(_unobj(wrap(a), kinds) if i == (0 if name == "append" else 1) else a)
                        for i, a in enumerate(args[1:])]
                r = f(a0, *rest, **kwargs)
            else:
                def conv(s):
                    if isinstance(s, (list, tuple)) and name == "block":
                        return [conv(v) for v in s]
                    return _unobj(wrap(s), kinds)
                seq = [conv(s) for s in (list(seq) if not isinstance(seq, (list, tuple)) else seq)]
                r = f(seq, *args[1:], **{k: v for k, v in kwargs.items() if k not in ("dtype", "casting")})
        else:
            r = f(*[_unobj(wrap(a), kinds) for a in args], **kwargs)
    else:
        a0 = _unobj(wrap(args[0]), kinds)
        rest = [concrete(a) if not has_symbols(a) else _raise_sym(name) for a in args[1:]]
        kw = {k: concrete(v) for k, v in kwargs.items()}
        r = f(a0, *rest, **kw)
    kind = promote(*kinds) if kinds else "f"

    def w(x):
        if isinstance(x, np.ndarray) and not is_sym(x):
            if x.dtype != object:
                x = x.astype(object)
            if any(scalar_kind(v) != kind for v in x.ravel().tolist()):
                x = _cast_arr(x.copy(), kind)
            return SymArray(x, kind)
        if isinstance(x, list):
            return [w(v) for v in x]
        if isinstance(x, tuple):
            return tuple(w(v) for v in x)
        return x
    return w(r)


def _raise_sym(name):
    raise Unsupported("np.%s with a symbolic shape or position" % name)


def _any_symarray(x):
    if type(x) is SymArray or is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_any_symarray(v) for v in x)
    return False


def call_function(name, args, kwargs, realf=None):
    """np.<name>(*args, **kwargs) for the code under test"""
    sym = has_symbols(list(args)) or has_symbols(kwargs)
    out_kw = kwargs.get("out") is not None
    if name in FUNCS and (sym or out_kw or name in ALWAYS):
        return FUNCS[name](*args, **kwargs)
    if name in STRUCTURAL and args and type(args[0]) is SymArray and name != "meshgrid":
        return structural(name, args, kwargs)
    if not sym and not out_kw:
        if name == "array" and (kwargs.get("dtype") is object):
            return FUNCS["array"](*args, **kwargs)
        f = realf or getattr(np, name)
        with np.errstate(all="ignore"):
            return rewrap(f(*[concrete(a) for a in args], **{k: concrete(v) for k, v in kwargs.items()}))
    if name in STRUCTURAL or name in STRUCTURAL_SEQ:
        return structural(name, args, kwargs)
    raise Unsupported("np.%s on symbolic values" % name)


# functions whose views / identity matter even on concrete data, or that mutate
ALWAYS = {"asarray", "asanyarray", "ascontiguousarray", "copyto", "putmask", "place", "copy", "array",
          "put_along_axis", "fill_diagonal", "full", "broadcast_to", "array_split", "split",
          "apply_along_axis", "may_share_memory", "shares_memory"}


def function_dispatch(func_, args, kwargs):
    return call_function(func_.__name__, args, kwargs, func_)
