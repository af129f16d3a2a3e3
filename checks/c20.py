"""C20: a reset optimizer behaves like a new one."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.base.base_single.SwarmOptimizer.reset", "pyswarms.base.base_discrete.DiscreteSwarmOptimizer.reset",
             "pyswarms.single.*.optimize", "pyswarms.discrete.binary.BinaryPSO.optimize", "pyswarms.backend.generators.*"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "iterations": "1..2 before and 1..2 after the reset",
                    "costs": "all IEEE doubles"},
          "thorough": {"particles": "1..3", "dimensions": "1..3", "iterations": "1..3 before and after"}}
ASSUMPTIONS = ["both runs see the same random numbers and the same (arbitrary) objective"]
OUTSIDE = "static topologies (they keep the neighbours of their first run by design)"


def restart(ctx, kind, n, d, before, after, k=2, oh=None, bh=None, vh=None, init=False, resets=1, ftol=None, clamp=None,
            real=False):
    feat = features(ctx, kind, n, d, oh=oh, bh=bh, vh=vh, init=init, ftol=ftol, clamp=clamp or (vh and (-2.0, 2.0)))
    kw = feat
    x0 = snapshot(kw["init_pos"]) if init else None

    th = "r" if ftol or real else "f"
    used = optimizer(ctx, kind, n, d, k=k, **kw)
    used.optimize(Objective(ctx, theory=th, name="earlier"), before, verbose=False)
    out = []
    for opt in (used, None):
        if opt is None:
            if init:
                kw["init_pos"] = ctx.array([v for r in x0 for v in r], "i" if kind == "binary" else "f", (n, d))
            opt = optimizer(ctx, kind, n, d, k=k, **kw)
        for _ in range(resets):
            replay_randomness()
            opt.reset()
        for h in (opt.cost_history, opt.mean_pbest_history, opt.mean_neighbor_history, opt.pos_history,
                  opt.velocity_history):
            ctx.claim("the histories are empty after a reset", len(h) == 0)
        ctx.claim("the swarm has its size after a reset", ctx.and_(
            shape_of(opt.swarm.position) == (n, d), shape_of(opt.swarm.velocity) == (n, d)))
        if init:
            ctx.claim("the given initial positions are restored", ctx.identical(opt.swarm.position, x0))
        obj = Objective(ctx, pure=True, theory=th)
        res = opt.optimize(obj, after, verbose=False)
        out.append(Trace(ctx, opt, obj, res))
    ctx.claim("the same positions are evaluated", ctx.and_(
        len(out[0].evals) == len(out[1].evals), [ctx.identical(p[0], q[0]) for p, q in zip(out[0].evals, out[1].evals)]))
    same_trace(ctx, *out)


HARNESSES = {"restart": restart}


def tasks(tier):
    T = []

    def add(**kw):
        T.append(Task("restart", kw, timeout=600, path_s=200))
    for kind in ("global", "local", "binary", "general:star", "general:ring"):
        add(kind=kind, n=2, d=1, before=1, after=2)
        add(kind=kind, n=2, d=1, before=2, after=1)
        add(kind=kind, n=2, d=2, before=1, after=1, resets=2)
        if kind != "binary":
            add(kind=kind, n=2, d=2, before=2, after=1, init=True)
            add(kind=kind, n=1, d=1, before=2, after=2, k=1, oh="lin_variation")
    for kind in KINDS:
        few = 1 if kind in ("global", "general:star") else 2
        base = dict(kind=kind, n=few, d=1, k=1)
        if kind != "binary":
            for oh in ({"w": "exp_decay"}, {"c1": "lin_variation", "c2": "nonlin_mod"}, {"w": "random"}):
                add(before=1, after=2, oh=oh, **base)
            for b in STRATEGIES_B:
                add(before=2, after=2, bh=b, **dict(base, n=1, kind=kind if few == 1 else "general:pyramid"))
                add(before=1, after=2, bh=b, init=True, **dict(base, n=few if b in ("nearest", "shrink", "intermediate") else 1))
        for v in STRATEGIES_V[1:]:
            if few == 1:
                add(before=2, after=2, bh="nearest", vh=v, **base)
            else:
                add(before=1, after=2, bh="nearest", vh=v, init=True, **base)
        add(before=2, after=1, vh="adjust", **base)
        add(before=1, after=3 if few == 1 else 2, ftol=1, **base)
        add(before=3, after=3, ftol=2, **base)
        add(before=1, after=2, clamp=(-0.5, 0.25), **base)
        add(before=1, after=2, init=True, resets=2, **base)
    add(kind="general:random", n=3, d=1, before=1, after=2)
    add(kind="general:pyramid", n=2, d=2, before=1, after=2)
    if tier == "thorough":
        for kind in ("global", "local", "binary", "general:star", "general:ring"):
            add(kind=kind, n=2, d=1, before=3, after=2)
            add(kind=kind, n=2, d=1, before=2, after=3)
            add(kind=kind, n=3, d=1, before=2, after=2)
            add(kind=kind, n=2, d=3, before=2, after=2)
        for t in T:
            t.timeout = 1200
            t.path_s = 600
    return T
