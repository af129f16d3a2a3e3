"""C02: the star topology's best never gets worse and is the best personal best."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.topology.star.Star.compute_gbest", "pyswarms.backend.operators.compute_pbest",
             "pyswarms.single.global_best.GlobalBestPSO.optimize", "pyswarms.single.general_optimizer.GeneralOptimizerPSO.optimize"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "steps": "one arbitrary step; 2 steps with evaluation; runs of 1..3 iterations",
                    "costs": "all IEEE doubles incl. inf and nan"},
          "thorough": {"particles": "1..5", "dimensions": "1..3", "steps": "1..3",
                       "costs": "all IEEE doubles incl. inf and nan"}}
ASSUMPTIONS = ["personal best costs are never nan (the library starts them at inf and replaces them only by "
               "strictly smaller costs, see C01)"]
OUTSIDE = "more particles, dimensions or steps than listed"


def star_step(ctx, n, d):
    """one update from an arbitrary state"""
    pc = ctx.fps("pcost", n, nonan=True)
    bc = ctx.fp("best", nonan=True)
    bp = ctx.reals("bpos", d)
    s = swarm(ctx, n, d, pbest_cost=pc.copy())
    s.best_cost, s.best_pos = bc, bp.copy()
    ppos = s.pbest_pos.copy()
    top = topology("star")
    pos, cost = top.compute_gbest(s)
    m = ctx.min([pc[i] for i in range(n)])
    better = m < bc
    ctx.claim("best cost is the smaller of the old one and the personal bests",
              ctx.identical(cost, ctx.ite(better, m, bc)))
    ctx.claim("best position belongs to the best cost", ctx.and_(
        ctx.implies(better, any_of(ctx, [ctx.and_(pc[i] == m, ctx.identical(pos, ppos[i])) for i in range(n)])),
        ctx.implies(ctx.not_(better), ctx.identical(pos, bp))))
    ctx.claim("swarm is not modified", ctx.and_(ctx.identical(s.pbest_pos, ppos), ctx.identical(s.pbest_cost, pc),
                                                ctx.identical(s.best_pos, bp), ctx.identical(s.best_cost, bc)))
    ctx.observe("pos", pos)
    ctx.observe("cost", cost)


def star_run(ctx, n, d, steps):
    """evaluate / remember / choose, repeatedly, from the start"""
    from pyswarms.backend.operators import compute_pbest
    s = swarm(ctx, n, d, pbest_cost=ctx.array([np.inf] * n, "f"))
    s.pbest_pos = s.position
    top = topology("star")
    seen = []
    prev = None
    for t in range(steps):
        if t:
            s.position = ctx.reals("pos", n, d)
        s.current_cost = ctx.fps("cost", n)
        seen += [(s.current_cost[i], [s.position[i, j] for j in range(d)]) for i in range(n)]
        s.pbest_pos, s.pbest_cost = compute_pbest(s)
        s.best_pos, s.best_cost = top.compute_gbest(s)
        for c, _ in seen:
            ctx.claim("no evaluated cost is below the best", ctx.not_(c < s.best_cost))
        if prev is not None:
            ctx.claim("the best never gets worse", s.best_cost <= prev)
        ctx.claim("best position was evaluated with the best cost", ctx.or_(
            s.best_cost == np.inf,
            any_of(ctx, [ctx.and_(c == s.best_cost, ctx.identical(s.best_pos, x)) for c, x in seen])))
        ctx.claim("a best position exists", tuple(s.best_pos.shape) == (d,))
        prev = s.best_cost
    ctx.observe("pos", s.best_pos)
    ctx.observe("cost", s.best_cost)


def run(ctx, kind, n, d, iters, runs=1, reset=False, theory="f", verbose=False, **feat):
    """whole runs with the star topology"""
    opt = optimizer(ctx, kind, n, d, **features(ctx, kind, n, d, **feat))
    for r in range(runs):
        if r and reset:
            opt.reset()
        at = len(opt.cost_history)
        obj = Objective(ctx, theory=theory)
        opt.optimize(obj, iters, verbose=verbose)
        H = opt.cost_history[at if not (r and reset) else 0:]
        seen = []
        for t, (x, costs, _) in enumerate(obj.calls):
            seen += list(zip(costs, x))
            for c, _ in seen:
                ctx.claim("in a run no evaluated cost is below the best", ctx.not_(c < H[t]))
            if t:
                ctx.claim("in a run the best never gets worse", H[t] <= H[t - 1])
            ctx.claim("in a run the best is the cost of an evaluation", ctx.or_(
                H[t] == np.inf, any_of(ctx, [c == H[t] for c, _ in seen])))
        s = opt.swarm
        ctx.claim("no personal best is cheaper than the best", ctx.and_([ctx.not_(c < s.best_cost) for c in scalars(s.pbest_cost)]))
        ctx.claim("the best position of the swarm was evaluated with the best cost", ctx.or_(
            s.best_cost == np.inf, any_of(ctx, [ctx.and_(c == s.best_cost, ctx.identical(s.best_pos, x)) for c, x in seen])))


HARNESSES = {"run": run, "star_step": star_step, "star_run": star_run}


def tasks(tier):
    step = [(1, 1), (2, 2), (3, 1)] if tier == "quick" else [(1, 1), (2, 3), (3, 2), (4, 2), (5, 2)]
    run = [(2, 1, 2), (3, 2, 2)] if tier == "quick" else [(2, 2, 3), (3, 2, 3), (3, 1, 2)]
    T = []
    for kind in ("global", "general:star"):
        for f in (dict(n=2, iters=2), dict(n=1, iters=3), dict(n=1, d=2, iters=2, runs=2), dict(n=1, iters=2, runs=2, reset=True),
                  dict(n=1, iters=3, ftol=1, theory="r", verbose=True), dict(n=2, iters=2, bh="nearest", init=True),
                  dict(n=1, iters=2, bh="periodic", oh="random"), dict(n=3, iters=1), dict(n=2, iters=1, runs=2)):
            T.append(Task("run", dict(dict(kind=kind, d=1), **f), timeout=600, path_s=200))
        if tier == "thorough":
            T += [Task("run", dict(dict(kind=kind, d=1), **f), timeout=1500, path_s=600) for f in (
                dict(n=3, iters=2), dict(n=2, iters=3), dict(n=1, iters=4), dict(n=2, d=2, iters=2, runs=2))]
    return T + [Task("star_step", dict(n=n, d=d)) for n, d in step] + \
        [Task("star_run", dict(n=n, d=d, steps=t)) for n, d, t in run]
