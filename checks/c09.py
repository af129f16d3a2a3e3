"""C09: no boundary strategy ever leaves a particle outside the bounds."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.handlers.BoundaryHandler.nearest/random/shrink/reflective/intermediate/periodic/__call__",
             "pyswarms.backend.operators.compute_position"]
BOUNDS = {"quick": {"particles": "1..2", "dimensions": "1..2", "bounds": "all reals (periodic, reflective: scaled "
                    "families; positions up to 5 widths away)", "IEEE": "nearest and shrink in double precision, "
                    "intermediate in half precision, 1 particle, 1 dimension"},
          "thorough": {"particles": "1..3", "dimensions": "1..3", "IEEE": "as quick, plus "
                       "periodic in half precision and random in an 11-bit format"}}
ASSUMPTIONS = ["lower bounds are below upper bounds", "the previous positions (memory) are within the bounds",
               "the narrower IEEE formats follow the same rounding rules as doubles"]
OUTSIDE = "IEEE arithmetic in double precision for the random, periodic, reflective and intermediate strategies; more particles or dimensions than listed"


def inside(ctx, R, L, H, label="the handled position is within the bounds"):
    for r in rows(R):
        for j, x in enumerate(r):
            ctx.claim(label, ctx.and_(x >= L[j], x <= H[j]))


def wrapping(strategy):
    return strategy in ("periodic", "reflective")


def exact(ctx, strategy, n, d, family=0, calls=1, aslist=False, far=5):
    if wrapping(strategy):
        lo, hi = [(-1.0, 2.0), (0.0, 0.5), (3.0, 10.0), (-9.0, -8.0)][family]
        lb, ub = ctx.array([lo] * d, "f"), ctx.array([hi] * d, "f")
    else:
        lb, ub = box(ctx, d)
    L, H = scalars(lb), scalars(ub)
    bh = boundary_handler(strategy)
    if strategy in ("shrink", "intermediate"):
        m = ctx.reals("mem", n, d)
        for r in rows(m):
            for j in range(d):
                ctx.assume(ctx.and_(r[j] >= L[j], r[j] <= H[j]))
        bh.memory = m
    for _ in range(calls):
        x = ctx.reals("pos", n, d)
        if wrapping(strategy):
            w = far * (hi - lo)
            for v in scalars(x):
                ctx.assume(ctx.and_(v >= lo - w, v <= hi + w))
        r = bh(x, (list(L), list(H)) if aslist else (lb, ub))
        ctx.claim("shape", shape_of(r) == (n, d))
        inside(ctx, r, L, H)
        if strategy in ("shrink", "intermediate"):
            inside(ctx, bh.memory, L, H, "the remembered position is within the bounds")


def ieee(ctx, strategy, n, d, fmt="f64"):
    """the same in IEEE arithmetic"""
    F = {"f16": core.FP16, "f64": core.FP64, "mini": core.FPC}[fmt]
    lb, ub = ctx.fps("lb", d, sort=F, finite=True), ctx.fps("ub", d, sort=F, finite=True)
    x = ctx.fps("pos", n, d, sort=F, finite=True)
    L, H = scalars(lb), scalars(ub)
    for a, b in zip(L, H):
        ctx.assume(a < b)
        ctx.assume(ctx.and_(a >= -64.0, b <= 64.0))
    for v in scalars(x):
        ctx.assume(ctx.and_(v >= -200.0, v <= 200.0))
    bh = boundary_handler(strategy)
    if strategy in ("shrink", "intermediate"):
        m = ctx.fps("mem", n, d, sort=F, finite=True)
        for r in rows(m):
            for j in range(d):
                ctx.assume(ctx.and_(r[j] >= L[j], r[j] <= H[j]))
        bh.memory = m
    if wrapping(strategy):
        for j in range(d):
            w = H[j] - L[j]
            for r in rows(x):
                ctx.assume(ctx.and_(r[j] >= L[j] - w, r[j] <= H[j] + w))
    inside(ctx, bh(x, (lb, ub)), L, H, "the handled position is within the bounds in IEEE arithmetic")


HARNESSES = {"exact": exact, "ieee": ieee}


def tasks(tier):
    T = []

    def ie(s, fmt, n=1, d=1, timeout=600):
        T.append(Task("ieee", dict(strategy=s, n=n, d=d, fmt=fmt), draws=fmt, timeout=timeout, path_s=timeout,
                      query_ms=timeout * 1000))
    for s in STRATEGIES_B:
        if wrapping(s):
            for f in range(4):
                T.append(Task("exact", dict(strategy=s, n=2, d=1, family=f)))
                T.append(Task("exact", dict(strategy=s, n=1, d=2, family=f, far=2)))
            T.append(Task("exact", dict(strategy=s, n=1, d=1, family=0, aslist=True)))
        else:
            T.append(Task("exact", dict(strategy=s, n=2, d=2)))
            T.append(Task("exact", dict(strategy=s, n=1, d=1, calls=2)))
            T.append(Task("exact", dict(strategy=s, n=1, d=2, aslist=True)))
    ie("nearest", "f64")
    ie("nearest", "f64", 2, 2)
    ie("shrink", "f64")
    ie("intermediate", "f16", timeout=200)
    if tier == "thorough":
        for s in STRATEGIES_B:
            if wrapping(s):
                T.append(Task("exact", dict(strategy=s, n=3, d=1, family=0, far=3), timeout=1500))
                T.append(Task("exact", dict(strategy=s, n=1, d=1, family=1, far=40), timeout=1500))
                T.append(Task("exact", dict(strategy=s, n=1, d=1, family=2, calls=2, far=3), timeout=1500))
            else:
                T.append(Task("exact", dict(strategy=s, n=3, d=2), timeout=1500))
                T.append(Task("exact", dict(strategy=s, n=2, d=3), timeout=1500))
                T.append(Task("exact", dict(strategy=s, n=2, d=2, calls=2), timeout=1500))
        ie("nearest", "f64", 3, 2)
        ie("random", "mini", timeout=1500)
        ie("periodic", "f16", timeout=1500)
        ie("intermediate", "f16", 2, 1, timeout=1500)
    return T
