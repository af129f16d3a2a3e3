"""C15: a run stops early exactly when the best cost has stood still long enough."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.single.global_best.GlobalBestPSO.optimize", "pyswarms.single.local_best.LocalBestPSO.optimize",
             "pyswarms.single.general_optimizer.GeneralOptimizerPSO.optimize", "pyswarms.discrete.binary.BinaryPSO.optimize"]
BOUNDS = {"quick": {"particles": "1..2", "dimensions": 1, "iterations": "1..4", "ftol": "all reals, and -inf",
                    "ftol_iter": "1..3", "costs": "all reals, independent for every evaluation", "runs": "1..2"},
          "thorough": {"particles": "1..3", "dimensions": 1, "iterations": "1..7", "ftol": "all reals, and -inf",
                       "ftol_iter": "1..5"}}
ASSUMPTIONS = []
OUTSIDE = "rounding of the relative difference; infinite or nan costs; more particles or iterations than listed"


def stopping(ctx, kind, n, iters, ftol_iter, default=False, runs=1, k=1, verbose=False, reset=False, **feat):
    kw = {} if default else {"ftol": ctx.real("ftol", lo=-8, hi=8)}
    opt = optimizer(ctx, kind, n, 1, k=k, ftol_iter=ftol_iter, **dict(features(ctx, kind, n, 1, **feat), **kw))
    at = 0
    for r in range(runs):
        if r and reset:
            opt.reset()
            at = 0
        obj = Objective(ctx, theory="r")
        opt.optimize(obj, iters, verbose=verbose)
        m = len(obj.calls)
        ctx.claim("at least one iteration, at most the requested ones", 1 <= m <= iters)
        ctx.claim("one history entry per iteration", len(opt.cost_history) == at + m)
        at += m
        if default:
            ctx.claim("without a tolerance every iteration is run", m == iters)
            continue
        B = []
        for _, costs, _ in obj.calls:
            B.append(ctx.min(([B[-1]] if B else []) + list(costs)))
        small = [None] + [ctx.abs(B[t] - B[t - 1]) < kw["ftol"] * (1 + ctx.abs(B[t - 1])) for t in range(1, m)]

        def still(t):
            return ctx.and_([small[s] for s in range(t - ftol_iter + 1, t + 1)])

        for t in range(ftol_iter, m - 1):
            ctx.claim("a run goes on while the best cost still moves", ctx.not_(still(t)))
        if m < iters:
            ctx.claim("a run stops early only after the required number of iterations", m > ftol_iter)
            if m > ftol_iter:
                ctx.claim("a run stops early only when the best cost stood still", still(m - 1))


HARNESSES = {"stopping": stopping}


def tasks(tier):
    T = []

    def add(**kw):
        T.append(Task("stopping", kw, timeout=600, path_s=200))
    for kind in ("global", "local", "binary", "general:star", "general:ring"):
        n = 1 if kind in ("global", "general:star") else 2
        for f, it in ((1, 3), (2, 4), (3, 4)):
            add(kind=kind, n=n, iters=it, ftol_iter=f)
        add(kind=kind, n=2, iters=3, ftol_iter=1)
        add(kind=kind, n=2, iters=3, ftol_iter=1, default=True)
        add(kind=kind, n=n, iters=1, ftol_iter=1)
        if kind in ("local", "general:ring"):
            add(kind=kind, n=n, iters=2, ftol_iter=1, runs=2)
        else:
            add(kind=kind, n=n, iters=3, ftol_iter=2, runs=2)
    add(kind="general:random", n=3, iters=2, ftol_iter=1)
    add(kind="general:vonneumann", n=3, iters=2, ftol_iter=1)
    for kind in KINDS:
        n = 1 if kind in ("global", "general:star") else 2
        add(kind=kind, n=n, iters=3, ftol_iter=1, verbose=True)
        add(kind=kind, n=n, iters=2 if n == 2 else 3, ftol_iter=1, runs=2, reset=True)
        add(kind=kind, n=n, iters=2, ftol_iter=1, runs=2, verbose=True)
        add(kind=kind, n=n, iters=3, ftol_iter=2, oh="lin_variation", init=True)
        add(kind=kind, n=n, iters=3, ftol_iter=1, clamp=(-0.5, 0.25), oh="random")
        add(kind=kind, n=1, iters=3, ftol_iter=1, bh="nearest", vh="invert", init=True, k=1)
        add(kind=kind, n=1, iters=5, ftol_iter=4, k=1)
        add(kind=kind, n=n, iters=2, ftol_iter=3)
    add(kind="general:pyramid", n=2, iters=3, ftol_iter=1)
    if tier == "thorough":
        for kind in ("global", "local", "binary", "general:star", "general:ring"):
            n = 1 if kind in ("global", "general:star") else 2
            for f, it in ((1, 6), (2, 6), (3, 7), (5, 7)):
                add(kind=kind, n=n, iters=it, ftol_iter=f)
            add(kind=kind, n=2, iters=4, ftol_iter=2)
            add(kind=kind, n=3, iters=3, ftol_iter=1)
            add(kind=kind, n=2, iters=3, ftol_iter=1, runs=3)
        for t in T:
            t.timeout = 1500
            t.path_s = 600
    return T
