"""C01: a particle's memory is the first best position it has visited."""
import numpy as np

from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.operators.compute_pbest", "pyswarms.single.*.optimize", "pyswarms.discrete.binary.BinaryPSO.optimize"]
BOUNDS = {"quick": {"particles": [1, 3], "dimensions": [1, 2], "costs": "all IEEE doubles incl. NaN/inf",
                    "positions": "all reals", "steps": "one arbitrary step; 2 steps from the start; whole runs of 1..3 iterations"},
          "thorough": {"particles": "1..6", "dimensions": "1..4", "costs": "all IEEE doubles incl. NaN/inf",
                       "positions": "all reals", "steps": "one arbitrary step; up to 4 steps from the start; whole runs of 1..4 iterations"}}
ASSUMPTIONS = []
OUTSIDE = "more particles, dimensions or steps than listed"


def pbest_step(ctx, n, d):
    from pyswarms.backend.operators import compute_pbest
    from pyswarms.backend.swarms import Swarm
    pos = ctx.reals("pos", n, d)
    ppos = ctx.reals("ppos", n, d)
    cost = ctx.fps("cost", n)
    pcost = ctx.fps("pcost", n)
    vel = ctx.reals("vel", n, d)
    s = Swarm(position=pos.copy(), velocity=vel.copy(), pbest_pos=ppos.copy(), pbest_cost=pcost.copy(),
              current_cost=cost.copy())
    npos, ncost = compute_pbest(s)
    for i in range(n):
        better = cost[i] < pcost[i]
        ctx.claim("cost is kept unless strictly improved", ctx.identical(ncost[i], ctx.ite(better, cost[i], pcost[i])))
        for j in range(d):
            ctx.claim("position follows the cost", ctx.identical(npos[i, j], ctx.ite(better, pos[i, j], ppos[i, j])))
    ctx.claim("shape", tuple(npos.shape) == (n, d) and tuple(ncost.shape) == (n,))
    ctx.claim("swarm unmodified", ctx.and_(
        ctx.identical(s.position, pos), ctx.identical(s.pbest_pos, ppos), ctx.identical(s.current_cost, cost),
        ctx.identical(s.pbest_cost, pcost), ctx.identical(s.velocity, vel)))
    ctx.observe("npos", npos)
    ctx.observe("ncost", ncost)


def memory(ctx, n, d, steps):
    """from the start: the memory is the earliest of the cheapest evaluations"""
    from pyswarms.backend.operators import compute_pbest
    from pyswarms.backend.swarms import Swarm
    s = Swarm(position=ctx.reals("pos", n, d), velocity=ctx.reals("vel", n, d))
    first = s.position.copy()
    s.pbest_cost = ctx.array([np.inf] * n, "f")
    hist = []
    for t in range(steps):
        if t:
            s.position = ctx.reals("pos", n, d)
        s.current_cost = ctx.fps("cost", n)
        hist.append((s.position.copy(), s.current_cost.copy()))
        s.pbest_pos, s.pbest_cost = compute_pbest(s)
    for i in range(n):
        c, x = np.inf, [first[i, j] for j in range(d)]
        for q, k in hist:
            b = k[i] < c
            x = [ctx.ite(b, q[i, j], x[j]) for j in range(d)]
            c = ctx.ite(b, k[i], c)
        ctx.claim("the remembered cost is the smallest so far", ctx.identical(s.pbest_cost[i], c))
        for j in range(d):
            ctx.claim("the remembered position is the first one with that cost", ctx.identical(s.pbest_pos[i, j], x[j]))


def run(ctx, kind, n, d, iters, k=1, runs=1, reset=False, theory="f", verbose=False, **feat):
    """the memory the swarm of a whole run ends with"""
    opt = optimizer(ctx, kind, n, d, k=k, **features(ctx, kind, n, d, **feat))
    for r in range(runs):
        if r and reset:
            opt.reset()
        first = snapshot(opt.swarm.pbest_pos if r and not reset else opt.swarm.position)
        obj = Objective(ctx, theory=theory)
        opt.optimize(obj, iters, verbose=verbose)
        s = opt.swarm
        for i in range(n):
            c, x = np.inf, first[i]
            for q, costs, _ in obj.calls:
                b = costs[i] < c
                x = [ctx.ite(b, u, v) for u, v in zip(q[i], x)]
                c = ctx.ite(b, costs[i], c)
            ctx.claim("in a run the remembered cost is the smallest so far", ctx.identical(s.pbest_cost[i], c))
            ctx.claim("in a run the remembered position is the first one with that cost",
                      ctx.identical(rows(s.pbest_pos)[i], x))


HARNESSES = {"pbest_step": pbest_step, "memory": memory, "run": run}


def tasks(tier):
    shapes = [(1, 1), (2, 2), (3, 2)]
    runs = [(1, 1, 2), (2, 2, 2)]
    if tier == "thorough":
        shapes += [(3, 3), (5, 2), (2, 4), (6, 1)]
        runs += [(2, 1, 3), (3, 2, 3), (1, 2, 4), (2, 2, 4)]
    T = []
    for kind in KINDS:
        few = 1 if kind in ("global", "general:star") else 2
        base = dict(kind=kind, n=few, d=1)
        for f in (dict(iters=3), dict(iters=2, runs=2), dict(iters=2, runs=2, reset=True), dict(iters=2, n=2, d=2, k=2),
                  dict(iters=3, ftol=1, theory="r", verbose=True), dict(iters=2, bh="nearest", init=True),
                  dict(iters=2, bh="periodic", init=True), dict(iters=2, oh="lin_variation", clamp=(-0.5, 0.25))):
            T.append(Task("run", dict(base, **f), timeout=600, path_s=200))
        if tier == "thorough":
            T += [Task("run", dict(base, **f), timeout=1500, path_s=600) for f in (
                dict(iters=4), dict(n=3, iters=2, k=2), dict(iters=2, runs=3), dict(n=2, iters=3, k=2))]
    for kind, n in (("general:random", 2), ("general:vonneumann", 3), ("general:pyramid", 2)):
        T.append(Task("run", dict(kind=kind, n=n, d=1, iters=2), timeout=600, path_s=200))
    return T + [Task("pbest_step", {"n": n, "d": d}, timeout=700) for n, d in shapes] + \
        [Task("memory", {"n": n, "d": d, "steps": t}, timeout=700) for n, d, t in runs]
