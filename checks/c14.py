"""C14: the histories are a faithful record of the run, one entry per iteration."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.base.base_single.SwarmOptimizer._populate_history",
             "pyswarms.base.base_discrete.DiscreteSwarmOptimizer._populate_history",
             "pyswarms.single.*.optimize", "pyswarms.discrete.binary.BinaryPSO.optimize",
             "pyswarms.backend.topology.*.compute_gbest/compute_velocity/compute_position"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "iterations": "1..3", "runs": "1..2",
                    "costs": "best-cost claims: all IEEE doubles incl. nan, inf; mean claims: all reals"},
          "thorough": {"particles": "1..4", "dimensions": "1..3", "iterations": "1..4", "runs": "1..3"}}
ASSUMPTIONS = ["the objective does not write to the positions it is given"]
OUTSIDE = "more particles, dimensions, iterations or runs than listed; rounding of the mean"


def bests(ctx, calls, n):
    """per-particle and overall best cost after each call"""
    mem = [np.inf] * n
    out = []
    for _, costs, _ in calls:
        mem = [ctx.ite(c < m, c, m) for c, m in zip(costs, mem)]
        out.append((list(mem), ctx.min(mem)))
    return out


def histories(ctx, kind, n, d, iters, runs=1, theory="f", k=2, verbose=False, reset=False, **feat):
    bh = feat.get("bh")
    opt = optimizer(ctx, kind, n, d, k=k, **features(ctx, kind, n, d, **feat))
    wanted = iters
    star = kind in ("global", "general:star")
    at = 0
    for r in range(runs):
        if r and reset:
            opt.reset()
            at = 0
        obj = Objective(ctx, theory=theory)
        before = rows(opt.swarm.velocity)
        cost, pos = opt.optimize(obj, wanted, verbose=verbose)
        H = [opt.cost_history, opt.mean_pbest_history, opt.mean_neighbor_history, opt.pos_history,
             opt.velocity_history]
        iters = len(obj.calls)      # the iterations that took place
        ctx.claim("all iterations take place", iters == wanted if not feat.get("ftol") else 0 < iters <= wanted)
        for h in H:
            ctx.claim("one entry per iteration", len(h) == at + iters)
        B = bests(ctx, obj.calls, n)
        ctx.claim("the run starts with the velocities the swarm had", ctx.identical(opt.velocity_history[at], before))
        for t in range(iters):
            mem, best = B[t]
            ctx.claim("recorded positions are the evaluated ones",
                      ctx.identical(opt.pos_history[at + t], obj.calls[t][0]))
            ctx.claim("shape of recorded velocities", shape_of(opt.velocity_history[at + t]) == (n, d))
            ctx.claim("recorded best cost is the smallest cost so far", ctx.identical(opt.cost_history[at + t], best))
            if t:
                ctx.claim("the recorded best cost never rises", opt.cost_history[at + t] <= opt.cost_history[at + t - 1])
            if theory == "r":
                ctx.claim("recorded mean is the mean of the personal best costs", ctx.same(
                    opt.mean_pbest_history[at + t] * n, sum(mem)))
            ctx.claim("recorded neighbourhood mean is the best cost",
                      ctx.same(opt.mean_neighbor_history[at + t], best))
            if t and kind != "binary" and not (bh and "bounds" in opt.__dict__ and opt.bounds is not None):
                ctx.claim("recorded positions and velocities belong together", ctx.and_([
                    ctx.same(x, y + v) for x, y, v in zip(scalars(opt.pos_history[at + t]),
                                                          scalars(opt.pos_history[at + t - 1]),
                                                          scalars(opt.velocity_history[at + t]))]))
        ctx.claim("the last recorded best cost is the returned one", ctx.identical(opt.cost_history[-1], cost))
        at += iters


HARNESSES = {"histories": histories}


def tasks(tier):
    T = []

    def add(**kw):
        T.append(Task("histories", kw, timeout=600, path_s=200))
    for kind in ("global", "local", "binary", "general:star", "general:ring"):
        add(kind=kind, n=2, d=2, iters=2)
        add(kind=kind, n=2, d=1, iters=2, theory="r")
        add(kind=kind, n=1 if kind in ("global", "general:star") else 2, d=1, iters=3, k=1, runs=1)
        add(kind=kind, n=2, d=1, iters=2, runs=2)
    add(kind="global", n=3, d=1, iters=2, theory="r")
    add(kind="general:vonneumann", n=3, d=1, iters=2)
    add(kind="general:random", n=3, d=1, iters=2)
    add(kind="general:pyramid", n=2, d=2, iters=2)
    add(kind="global", n=2, d=2, iters=2, init=True)
    for b in ("nearest", "random", "shrink", "intermediate", "periodic", "reflective"):
        add(kind="global", n=2, d=1, iters=2, bh=b, theory="r")
    for kind in KINDS:
        few = 1 if kind in ("global", "general:star") else 2
        add(kind=kind, n=few, d=1, iters=3, k=1, ftol=1, theory="r")
        add(kind=kind, n=few, d=1, iters=4, k=1, ftol=2, theory="r")
        add(kind=kind, n=few, d=1, iters=2, k=1, ftol=1, theory="r", runs=2, verbose=True)
        add(kind=kind, n=few, d=1, iters=2, k=1, runs=2, reset=True)
        add(kind=kind, n=few, d=1, iters=2, k=1, init=True, clamp=(-0.5, 0.25))
        add(kind=kind, n=few, d=1, iters=3, k=1, oh="lin_variation", verbose=True)
        add(kind=kind, n=few, d=1, iters=2, k=1, bh="nearest", vh="invert", clamp=(-2.0, 2.0))
    if tier == "thorough":
        for kind in ("global", "local", "binary", "general:star", "general:ring"):
            add(kind=kind, n=2, d=1, iters=3)
            add(kind=kind, n=3, d=2, iters=2)
            add(kind=kind, n=2, d=1, iters=2, runs=3)
            add(kind=kind, n=3, d=1, iters=2, theory="r")
            add(kind=kind, n=2, d=3, iters=2)
        add(kind="global", n=2, d=1, iters=4)
        add(kind="global", n=4, d=1, iters=2)
        for t in T:
            t.timeout = 1500
            t.path_s = 600
    return T
