"""C08: a particle moves by its velocity, and the operators change nothing else."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.operators.compute_position", "pyswarms.backend.topology.*.compute_position",
             "pyswarms.backend.handlers.BoundaryHandler.*"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "positions, velocities, bounds": "all reals", "iterations of runs": "1..2",
                    "integer positions": "-8..8"},
          "thorough": {"particles": "1..4", "dimensions": "1..3"}}
ASSUMPTIONS = ["lower bounds are below upper bounds"]
OUTSIDE = "rounding; more particles or dimensions than listed"


def move(ctx, via, n, d, strategy=None, ints=False, aslist=False):
    from pyswarms.backend.operators import compute_position
    kw = {}
    if ints:
        kw["position"] = ctx.ints("ipos", n, d, lo=-8, hi=8)
    s = swarm(ctx, n, d, **kw)
    X, V, P = snapshot(s.position), snapshot(s.velocity), snapshot(s.pbest_pos)
    bounds = None
    bh = boundary_handler(strategy or "periodic")
    if strategy:
        if strategy in ("periodic", "reflective"):
            lb, ub = ctx.array([-1.0] * d, "f"), ctx.array([2.0] * d, "f")
        else:
            lb, ub = box(ctx, d)
        bounds = (scalars(lb), scalars(ub)) if aslist else (lb, ub)
        L, H = scalars(lb), scalars(ub)
        if strategy in ("shrink", "intermediate"):
            bh.memory = ctx.reals("mem", n, d)
            M = snapshot(bh.memory)
            for r in M:
                for j in range(d):
                    ctx.assume(ctx.and_(r[j] >= L[j], r[j] <= H[j]))
        if strategy in ("periodic", "reflective"):
            for i in range(n):
                for j in range(d):
                    t = X[i][j] + V[i][j]
                    ctx.assume(ctx.and_(t >= -7, t <= 8))
    if via == "operator":
        r = compute_position(s, bounds, bh)
    elif bounds is None:
        r = topology(via).compute_position(s)
    else:
        r = topology(via).compute_position(s, bounds, bh)
    R = rows(r)
    ctx.claim("shape", shape_of(r) == (n, d))
    for i in range(n):
        T = [a + b for a, b in zip(X[i], V[i])]
        if bounds is None:
            ctx.claim("without bounds a particle moves by its velocity", ctx.same(R[i], T))
            continue
        out = row_outside(ctx, T, L, H)
        ctx.claim("a particle that stays inside moves by its velocity", ctx.implies(ctx.not_(out), ctx.same(R[i], T)))
    ctx.claim("position, velocity and memory of the swarm are left alone", ctx.and_(
        ctx.identical(s.position, X), ctx.identical(s.velocity, V), ctx.identical(s.pbest_pos, P)))
    if bounds is not None:
        ctx.claim("bounds are left alone", ctx.and_(ctx.identical(scalars(bounds[0]), L),
                                                    ctx.identical(scalars(bounds[1]), H)))
        if strategy in ("shrink", "intermediate"):
            ctx.observe("r", r)


def run(ctx, kind, n, d, iters, again=False, verbose=False, **feat):
    """consecutive states of a whole optimisation"""
    opt = optimizer(ctx, kind, n, d, k=1, **features(ctx, kind, n, d, **feat))
    for name in ([again] if again else []):
        opt.optimize(Objective(ctx, theory="r", name="earlier"), 1, verbose=False)
        if name == "reset":
            opt.reset()
    at = len(opt.pos_history)
    opt.optimize(Objective(ctx, theory="r"), iters, verbose=verbose)
    X, V = [rows(p) for p in opt.pos_history[at:]], [rows(v) for v in opt.velocity_history[at:]]
    if "ftol" not in feat:      # (a run that stops early does not move the swarm any more)
        X.append(rows(opt.swarm.position))
        V.append(rows(opt.swarm.velocity))
    for t in range(len(X) - 1):
        for i in range(n):
            to = [a + b for a, b in zip(X[t][i], V[t + 1][i])]
            ok = ctx.same(X[t + 1][i], to)
            if feat.get("bh"):
                ok = ctx.or_(row_outside(ctx, to, [-1.0] * d, [2.0] * d), ok)
            ctx.claim("in a run a particle that stays inside moves by its velocity", ok)


HARNESSES = {"move": move, "run": run}


def tasks(tier):
    T = [Task("move", dict(via="operator", n=2, d=2)), Task("move", dict(via="operator", n=2, d=2, ints=True))]
    for t in ("star", "ring", "vonneumann", "random", "pyramid"):
        T.append(Task("move", dict(via=t, n=2, d=1)))
        T.append(Task("move", dict(via=t, n=1, d=1, strategy="nearest")))
        for b in STRATEGIES_B[1:]:
            T.append(Task("move", dict(via=t, n=1, d=1, strategy=b)))
    for b in STRATEGIES_B:
        T.append(Task("move", dict(via="operator", n=2, d=1, strategy=b)))
        T.append(Task("move", dict(via="operator", n=1, d=2, strategy=b, aslist=True)))
    T.append(Task("move", dict(via="operator", n=1, d=1, strategy="nearest", ints=True)))
    T.append(Task("move", dict(via="operator", n=1, d=1, strategy="random", ints=True)))
    for kind in ("global", "local", "general:ring", "general:random", "general:pyramid", "general:vonneumann"):
        n = 3 if kind in ("general:random", "general:vonneumann") else 2
        for f in [dict(vh=v) for v in STRATEGIES_V] + [dict(bh=b) for b in STRATEGIES_B] + [
                dict(clamp=(-0.5, 0.25)), dict(init=True, again="again"), dict(again="reset", bh="nearest", vh="zero"),
                dict(ftol=1, verbose=True, iters=3, oh="lin_variation")]:
            few = n
            if kind == "general:random" and ("ftol" in f or "again" in f):
                f = dict(f, iters=2 if "ftol" in f else 1)
            if f.get("bh") in ("periodic", "reflective") and (n == 2 or kind == "general:random"):
                if kind not in ("global", "general:ring"):
                    continue
                few = 1
            elif n == 3 and "bh" in f:
                continue
            T.append(Task("run", dict(dict(kind=kind, n=few, d=1, iters=1 if "bh" in f else 2), **f), timeout=600, path_s=200))
    if tier == "thorough":
        T.append(Task("move", dict(via="operator", n=4, d=3)))
        for b in STRATEGIES_B:
            T.append(Task("move", dict(via="operator", n=2, d=2, strategy=b), timeout=700, path_s=200))
            T.append(Task("move", dict(via="ring", n=3, d=1, strategy=b), timeout=700, path_s=200))
    return T
