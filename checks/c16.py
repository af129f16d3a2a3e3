"""C16: a bounded run never evaluates a position outside the bounds."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.single.*.optimize", "pyswarms.backend.generators.generate_swarm/generate_velocity/create_swarm",
             "pyswarms.backend.operators.compute_position/compute_velocity", "pyswarms.backend.handlers.BoundaryHandler",
             "pyswarms.backend.handlers.VelocityHandler"]
BOUNDS = {"quick": {"particles": "1..2", "dimensions": "1..2", "iterations": "2..3", "bounds": "all reals lb < ub "
                    "(periodic, reflective: four fixed intervals)", "boundary strategies": "all six",
                    "velocity strategies": "all four", "clamp": "none or all reals"},
          "thorough": {"particles": "1..3", "dimensions": "1..2", "iterations": "2..4"}}
ASSUMPTIONS = ["lower bounds are below upper bounds", "the default centre (1) for generated positions",
               "given initial positions are within the bounds (others are rejected, C19)"]
OUTSIDE = "rounding; more particles, dimensions or iterations than listed"
FAMILY = [(-1.0, 2.0), (0.0, 0.5), (3.0, 10.0), (-9.0, -8.0)]


def bounded(ctx, kind, bh, n, d, iters, vh=None, clamp=None, init=False, family=0, runs=1, order=False, aslist=False, reset=False, oh=None, k=2,
            ftol=None, verbose=False):
    wrap = bh in ("periodic", "reflective")
    if wrap:
        lo, hi = FAMILY[family]
        lb, ub = ctx.array([lo] * d, "f"), ctx.array([hi] * d, "f")
    else:
        lb, ub = box(ctx, d)
    L, H = scalars(lb), scalars(ub)
    kw = dict(bounds=(list(L), list(H)) if aslist else (lb, ub), bh_strategy=bh)
    if vh:
        kw["vh_strategy"] = vh
    if clamp == "sym":
        a, b = ctx.real("vmin", lo=-4, hi=4), ctx.real("vmax", lo=-4, hi=4)
        ctx.assume(a < b)
        kw["velocity_clamp"] = (a, b)
    elif clamp == "fix":
        kw["velocity_clamp"] = (-2.0, 2.0)
    if init:
        x = ctx.reals("init", n, d)
        for r in rows(x):
            for j in range(d):
                ctx.assume(ctx.and_(r[j] >= L[j], r[j] <= H[j]))
        kw["init_pos"] = x
    if oh:
        kw["oh_strategy"] = {"w": oh}
    if ftol:
        kw.update(ftol=ctx.real("ftol", lo=0, hi=8), ftol_iter=ftol)
    opt = optimizer(ctx, kind, n, d, k=min(n, k), **kw)
    # the costs only choose which positions attract: one fixed order decides them
    for r in range(runs):
        if r and reset:
            opt.reset()
        up = [[float(1 + 10 * t + i) for i in range(n)] for t in range(iters)]
        obj = Objective(ctx, script=up[::-1] if order else up)
        cost, pos = opt.optimize(obj, iters, verbose=verbose)
        for x, _ in obj.evals:
            for j in range(d):
                ctx.claim("evaluated positions are within the bounds", ctx.and_(x[j] >= L[j], x[j] <= H[j]))
        for j in range(d):
            ctx.claim("the returned position is within the bounds", ctx.and_(pos[j] >= L[j], pos[j] <= H[j]))
        for x in rows(opt.swarm.position):
            for j in range(d):
                ctx.claim("the swarm ends within the bounds", ctx.and_(x[j] >= L[j], x[j] <= H[j]))


HARNESSES = {"bounded": bounded}


def tasks(tier):
    T = []

    def add(**kw):
        T.append(Task("bounded", kw, timeout=600, path_s=120))
    for bh in STRATEGIES_B:
        wrap = bh in ("periodic", "reflective")
        for f in range(4 if wrap else 1):
            add(kind="global", bh=bh, n=1, d=1, iters=3, family=f, clamp="fix" if wrap else None)
        add(kind="global", bh=bh, n=2, d=1, iters=2, clamp="fix")
        if not wrap:
            add(kind="global", bh=bh, n=1, d=1, iters=2, clamp="sym")
        add(kind="global", bh=bh, n=1, d=2, iters=2, init=True, clamp="fix")
        add(kind="local", bh=bh, n=1, d=1, iters=2, vh="invert", clamp="fix")
        add(kind="general:ring", bh=bh, n=1, d=1, iters=2, vh="zero", clamp="fix", aslist=True)
        add(kind="general:star", bh=bh, n=1, d=1, iters=2, vh="adjust", clamp="fix")
        add(kind="general:star", bh=bh, n=2, d=1, iters=2, order=True, clamp="fix")
        add(kind="global", bh=bh, n=1, d=1, iters=2, runs=2, clamp="fix")
        for kind in ("local", "general:star", "general:ring", "general:random", "general:pyramid"):
            few = 1 if kind in ("general:star", "general:pyramid") else 2
            base = dict(kind=kind, bh=bh, n=few, d=1, k=1)
            add(iters=2, clamp=None if not wrap else "fix", **base)
            if few == 1:
                add(iters=2, runs=2, reset=True, clamp="fix", **base)
                add(iters=1, runs=2, clamp="fix", init=True, **base)
        add(kind="global", bh=bh, n=1, d=1, iters=2, runs=2, reset=True, clamp="fix")
        add(kind="global", bh=bh, n=1, d=1, iters=3, oh="exp_decay", clamp="fix", ftol=1, verbose=True)
        for kind in ("global", "local", "general:star", "general:ring"):
            for vh in STRATEGIES_V:
                add(kind=kind, bh=bh, n=1, d=1, iters=2, vh=vh, clamp="fix", init=True, k=1)
                if vh != "unmodified":
                    add(kind=kind, bh=bh, n=1, d=1, iters=3, vh=vh, clamp="fix", k=1)
    if tier == "thorough":
        for bh in STRATEGIES_B:
            wrap = bh in ("periodic", "reflective")
            c = "fix" if wrap else "sym"
            for k in ("global", "general:star", "local"):
                add(kind=k, bh=bh, n=2, d=1, iters=3, clamp=c, order=True)
                add(kind=k, bh=bh, n=1, d=1, iters=4, clamp=c)
                for vh in STRATEGIES_V:
                    add(kind=k, bh=bh, n=1, d=2, iters=2, clamp=c, vh=vh)
            add(kind="global", bh=bh, n=3, d=1, iters=2, clamp=c)
            add(kind="global", bh=bh, n=2, d=2, iters=2, clamp=c)
        for t in T:
            t.timeout = 1200
            t.path_s = 600
    return T
