"""C06: with a velocity clamp no particle is ever faster than the clamp allows."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.handlers.VelocityHandler.*", "pyswarms.backend.operators.compute_velocity",
             "pyswarms.backend.generators.generate_velocity", "optimize loops of all four optimizers"]
BOUNDS = {"quick": {"particles": "1..2", "dimensions": "1..2", "velocities, positions, clamps": "all reals, min <= max",
                    "calls": "1..2", "iterations": "2"},
          "thorough": {"particles": "1..3", "dimensions": "1..3", "calls": "1..3", "iterations": "2..3"}}
ASSUMPTIONS = ["the clamp's minimum does not exceed its maximum"]
OUTSIDE = "more particles, dimensions or iterations than listed"


def clamp_of(ctx, form, d):
    """a clamp given as scalars, as arrays or as lists, with its entries per dimension"""
    if form == "scalar":
        lo, hi = ctx.real("cmin"), ctx.real("cmax")
        ctx.assume(lo <= hi)
        return (lo, hi), [lo] * d, [hi] * d
    lo, hi = ctx.reals("cmin", d), ctx.reals("cmax", d)
    for j in range(d):
        ctx.assume(lo[j] <= hi[j])
    L, H = scalars(lo), scalars(hi)
    if form == "list":
        return (list(L), list(H)), L, H
    return (lo, hi), L, H


def within(ctx, V, L, H, label):
    for r in rows(V):
        for j, v in enumerate(r):
            ctx.claim(label, ctx.and_(v >= L[j], v <= H[j]))


def handler(ctx, strategy, n, d, form, calls):
    vh = velocity_handler(strategy)
    clamp, L, H = clamp_of(ctx, form, d)
    lb, ub = box(ctx, d)
    for _ in range(calls):
        v, x = ctx.reals("vel", n, d), ctx.reals("pos", n, d)
        orig = snapshot(v)
        r = vh(v, clamp, position=x, bounds=(lb, ub))
        within(ctx, r, L, H, "velocity is within the clamp")
        if strategy == "unmodified":
            ctx.claim("velocities within the clamp stay, others go to the nearest limit", ctx.identical(
                r, [[clip(ctx, a, L[j], H[j]) for j, a in enumerate(q)] for q in orig]))
        ctx.observe("v", r)


def operator(ctx, strategy, n, d, form):
    from pyswarms.backend.operators import compute_velocity
    s = swarm(ctx, n, d, options={"c1": ctx.real("c1"), "c2": ctx.real("c2"), "w": ctx.real("w")})
    s.best_pos = ctx.reals("gpos", d)
    clamp, L, H = clamp_of(ctx, form, d)
    vh = velocity_handler(strategy)
    vh.memory = ctx.reals("mem", n, d)
    r = compute_velocity(s, clamp, vh, box(ctx, d))
    within(ctx, r, L, H, "velocity is within the clamp")


def run(ctx, kind, strategy, n, d, iters, k=2, form="scalar", again=False, **feat):
    clamp, L, H = clamp_of(ctx, form, d)
    feat.setdefault("bh", "nearest")
    opt = optimizer(ctx, kind, n, d, k=k, **features(ctx, kind, n, d, vh=strategy, clamp=clamp, **feat))
    within(ctx, opt.swarm.velocity, L, H, "initial velocity is within the clamp")
    for r in range(2 if again else 1):
        if r and again == "reset":
            opt.reset()
            within(ctx, opt.swarm.velocity, L, H, "initial velocity is within the clamp")
        opt.optimize(Objective(ctx, theory="r"), iters, verbose=False)
    for v in list(opt.velocity_history) + [opt.swarm.velocity]:
        within(ctx, v, L, H, "velocity is within the clamp throughout a run")


HARNESSES = {"handler": handler, "operator": operator, "run": run}


def tasks(tier):
    T = []
    for s in STRATEGIES_V:
        for form in ("scalar", "array", "list"):
            T.append(Task("handler", dict(strategy=s, n=2, d=2, form=form,
                                           calls=2 if s in ("unmodified", "adjust") else 1)))
        T.append(Task("operator", dict(strategy=s, n=2, d=1, form="scalar")))
    for kind in ("global", "local", "general:ring", "general:star"):
        for s in STRATEGIES_V:
            T.append(Task("run", dict(kind=kind, strategy=s, n=2, d=1, iters=2)))
    for s in ("unmodified", "adjust"):
        T.append(Task("run", dict(kind="binary", strategy=s, n=2, d=1, iters=2)))
    for kind in KINDS + ("general:random", "general:pyramid"):
        few = 1 if kind in ("global", "general:star", "general:pyramid") else 2
        base = dict(kind=kind, n=few, d=1, k=1, strategy="unmodified")
        T += [Task("run", dict(base, **f), timeout=600, path_s=200) for f in (
            dict(iters=3, form="array"), dict(iters=2, bh=None, init=True), dict(iters=1, again="again"),
            dict(iters=2, again="reset", bh=None), dict(iters=2, d=2, form="array", bh=None),
            dict(iters=2, bh="periodic", init=True), dict(iters=3, ftol=1, bh=None), dict(iters=2, oh="random"))]
        if kind != "binary":
            T += [Task("run", dict(base, strategy=v, iters=3 if few == 1 and b != "random" else 2, bh=b, init=True), timeout=600, path_s=200)
                  for v, b in (("adjust", "intermediate"), ("invert", "shrink"), ("zero", "random"))]
    if tier == "thorough":
        for s in STRATEGIES_V:
            for form in ("scalar", "array"):
                T.append(Task("handler", dict(strategy=s, n=3 if s in ("unmodified", "adjust") else 2,
                                               d=3, form=form, calls=3 if s in ("unmodified", "adjust") else 1), timeout=700, path_s=200))
            T.append(Task("operator", dict(strategy=s, n=3, d=2, form="array"), timeout=700))
            for kind in ("global", "local", "general:ring", "general:star"):
                T.append(Task("run", dict(kind=kind, strategy=s, n=2, d=1, iters=3), timeout=700, path_s=200))
    return T
