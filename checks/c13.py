"""C13: the returned cost and position are the best of everything the run evaluated."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.single.global_best.GlobalBestPSO.optimize", "pyswarms.single.local_best.LocalBestPSO.optimize",
             "pyswarms.single.general_optimizer.GeneralOptimizerPSO.optimize", "pyswarms.discrete.binary.BinaryPSO.optimize",
             "pyswarms.backend.operators.compute_pbest/compute_objective_function/compute_velocity/compute_position",
             "pyswarms.backend.topology.*.compute_gbest"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "iterations": "1..3", "costs": "all IEEE doubles incl. nan "
                    "and inf, independent for every evaluation", "runs": "one, and two in a row on the same optimizer"},
          "thorough": {"particles": "1..4", "dimensions": "1..3", "iterations": "1..4"}}
ASSUMPTIONS = ["at least one evaluation of the run is below +inf (otherwise there is nothing to return)"]
OUTSIDE = "more particles, dimensions or iterations than listed"


def best_of(ctx, evals, cost, pos, d, tag=""):
    some = ctx.or_([c < np.inf for _, c in evals])
    ctx.claim("no evaluation of the run is cheaper than the returned cost" + tag, ctx.implies(
        some, ctx.and_([ctx.not_(c < cost) for _, c in evals])))
    ctx.claim("the returned position was evaluated with the returned cost" + tag, ctx.implies(
        some, ctx.or_([ctx.and_(c == cost, ctx.identical(pos, x)) for x, c in evals])))
    ctx.claim("one position of the right size is returned" + tag, shape_of(pos) == (d,))
    ctx.claim("one cost is returned" + tag, shape_of(cost) == ())


def result(ctx, kind, n, d, iters, runs=1, theory="f", k=2, static=False, reset=False, verbose=False, procs=None, **feat):
    opt = optimizer(ctx, kind, n, d, k=k, static=static, **features(ctx, kind, n, d, **feat))
    kept, many = [], iters
    for r in range(runs):
        if r and reset:
            opt.reset()
        start = snapshot(opt.swarm.position)
        obj = Objective(ctx, theory=theory)
        iters = many[r] if isinstance(many, (tuple, list)) else many
        cost, pos = opt.optimize(obj, iters, verbose=verbose, **({"n_processes": procs} if procs else {}))
        if procs:
            ctx.claim("every iteration evaluates every particle once", len(obj.evals) == n * iters)
        else:
            m = len(obj.calls)
            ctx.claim("every iteration evaluates every particle once", [len(c) for c, _, _ in obj.calls] == [n] * m and (
                0 < m <= iters if feat.get("ftol") else m == iters))
        ctx.claim("a run starts from the current swarm", ctx.identical([e[0] for e in obj.evals[:n]], start))
        best_of(ctx, obj.evals, cost, pos, d, " (again)" if r else "")
        kept.append((cost, pos, cost if not hasattr(cost, "copy") else cost.copy(), pos.copy()))
    for c, p, c0, p0 in kept:
        ctx.claim("a later run leaves the result of an earlier one alone", ctx.and_(
            ctx.identical(c, c0), ctx.identical(p, p0)))
    ctx.observe("cost", cost)
    if kind != "binary":        # positions depend on exp, which the encoding leaves open
        ctx.observe("pos", pos)


HARNESSES = {"result": result}


def tasks(tier):
    T = []

    def add(**kw):
        T.append(Task("result", kw, timeout=600, path_s=200))
    for kind in ("global", "local", "binary", "general:star", "general:ring"):
        add(kind=kind, n=2, d=2, iters=2)
        add(kind=kind, n=2, d=1, iters=2, runs=2)
        add(kind=kind, n=1 if kind in ("global", "general:star") else 2, d=1, iters=3, k=1)
    add(kind="global", n=3, d=1, iters=2)
    add(kind="global", n=2, d=1, iters=1)
    add(kind="general:vonneumann", n=3, d=1, iters=2)
    add(kind="general:random", n=3, d=1, iters=2)
    add(kind="general:pyramid", n=2, d=2, iters=2)
    add(kind="general:ring", n=2, d=1, iters=2, static=True)
    add(kind="global", n=2, d=1, iters=2, bh="nearest")
    add(kind="global", n=2, d=2, iters=2, init=True)
    for kind in KINDS:
        few = 1 if kind in ("global", "general:star") else 2
        base = dict(kind=kind, n=few, d=1, k=1)
        add(iters=2, runs=2, reset=True, **base)
        add(iters=3, ftol=1, theory="r", verbose=True, **base)
        add(iters=2, ftol=1, theory="r", runs=2, **base)
        add(iters=(1, 3), ftol=1, theory="r", runs=2, **dict(base, n=1))
        add(iters=(2, 1), runs=2, verbose=True, **dict(base, n=1))
        add(iters=2, init=True, clamp=(-0.5, 0.25), **base)
        add(iters=2, oh="lin_variation", verbose=True, **base)
        add(iters=2, procs=2, **dict(base, n=2))
        if kind != "binary":
            for b in STRATEGIES_B:
                add(iters=2, bh=b, init=True, **base)
            for v in STRATEGIES_V[1:]:
                add(iters=2, bh="nearest", vh=v, clamp=(-2.0, 2.0), **base)
    add(kind="general:random", n=3, d=1, iters=1, runs=2)
    add(kind="general:vonneumann", n=3, d=1, iters=1, runs=2)
    add(kind="general:pyramid", n=2, d=2, iters=1, runs=2)
    add(kind="general:random", n=3, d=1, iters=2, static=True)
    add(kind="general:pyramid", n=2, d=2, iters=2, static=True)
    if tier == "thorough":
        for kind in ("global", "local", "binary", "general:star", "general:ring"):
            add(kind=kind, n=3, d=2, iters=2)
            add(kind=kind, n=2, d=1, iters=3)
            add(kind=kind, n=2, d=1, iters=2, runs=3)
            add(kind=kind, n=2, d=3, iters=2)
        add(kind="global", n=4, d=1, iters=2)
        add(kind="global", n=2, d=1, iters=4)
        add(kind="general:star", n=2, d=1, iters=4)
        add(kind="general:random", n=3, d=1, iters=2, runs=2)
        add(kind="general:pyramid", n=3, d=2, iters=2)
        for b in STRATEGIES_B:
            add(kind="global", n=2, d=1, iters=2, bh=b)
        for t in T:
            t.timeout = 1500
            t.path_s = 600
    return T
