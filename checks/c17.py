"""C17: spreading the evaluation over worker processes changes nothing but the speed."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.operators.compute_objective_function", "pyswarms.single.*.optimize",
             "pyswarms.discrete.binary.BinaryPSO.optimize"]
BOUNDS = {"quick": {"particles": "1..4", "dimensions": "1..2", "iterations": "1..2", "processes": "1..5",
                    "objective": "any function of a position and an argument (uninterpreted)", "costs": "all IEEE doubles"},
          "thorough": {"particles": "1..6", "dimensions": "1..3", "iterations": "1..3", "processes": "1..8"}}
ASSUMPTIONS = ["the objective evaluates every row on its own (the documented contract)",
               "multiprocessing.Pool.map applies the function to every item and keeps the order (contract stub)"]
OUTSIDE = "operating-system processes, pickling, crashes of workers"


class Arg(Objective):
    """costs depend on the position and on the keyword argument"""

    def row(self, r, kw=None):
        return self.ctx.apply(self.name, list(r) + [kw["a"], kw["b"]], self.theory, self.nonan, self.finite)


def evaluation(ctx, n, d, procs):
    """the operator itself"""
    from pyswarms.backend.operators import compute_objective_function
    s = swarm(ctx, n, d)
    obj = Arg(ctx, pure=True)
    a, b = ctx.real("a"), ctx.real("b")
    x = snapshot(s.position)
    plain = compute_objective_function(s, obj, a=a, b=b)
    k = len(obj.evals)
    pool = proxy.PoolStub(procs)
    par = compute_objective_function(s, obj, pool=pool, a=a, b=b)
    ctx.claim("same costs in the same order", ctx.identical(par, plain))
    ctx.claim("one cost per particle", shape_of(par) == (n,) and shape_of(plain) == (n,))
    ctx.claim("every particle is evaluated exactly once", len(obj.evals) == 2 * k and k == n)
    if len(obj.evals) == 2 * n:
        ctx.claim("the workers see the particles", ctx.and_([
            ctx.identical(obj.evals[n + i][0], x[i]) for i in range(n)]))
    for i in range(n):
        ctx.claim("the cost of a particle is the objective at its position",
                  ctx.identical(plain[i], obj.row(x[i], {"a": a, "b": b})))
    ctx.claim("the positions are left alone", ctx.identical(s.position, x))


def run(ctx, kind, n, d, iters, procs, k=2, runs=1, verbose=False, real=False, **feat):
    a, b = ctx.real("a"), ctx.real("b")
    out = []
    kw = features(ctx, kind, n, d, **feat)
    x0 = snapshot(kw["init_pos"]) if "init_pos" in kw else None
    for np_ in (None, procs):
        replay_randomness()
        if x0:
            kw["init_pos"] = ctx.array([v for r in x0 for v in r], "i" if kind == "binary" else "f", (n, d))
        opt = optimizer(ctx, kind, n, d, k=k, **kw)
        obj = Arg(ctx, pure=True, theory="r" if real or feat.get("ftol") else "f")
        at = len(ENV.pools)
        for _ in range(runs):
            res = opt.optimize(obj, iters, n_processes=np_, verbose=verbose, a=a, b=b)
        out.append(Trace(ctx, opt, obj, res))
        ctx.claim("workers are only used when asked for, and are released", ctx.and_(
            (len(ENV.pools) > at) == (np_ is not None), closed_pools(at)))
        if np_:
            ctx.claim("as many workers as asked for", [p._processes for p in ENV.pools[at:]] == [np_] * runs)
    ctx.claim("the same positions are evaluated", ctx.and_(
        len(out[0].evals) == len(out[1].evals), [ctx.identical(p[0], q[0]) for p, q in zip(out[0].evals, out[1].evals)]))
    same_trace(ctx, *out)


HARNESSES = {"evaluation": evaluation, "run": run}


def tasks(tier):
    T = [Task("evaluation", dict(n=n, d=d, procs=p)) for n, d, p in (
        (1, 1, 1), (2, 2, 1), (2, 1, 2), (3, 2, 2), (4, 1, 3), (1, 2, 2), (3, 1, 5), (4, 2, 4))]

    def add(**kw):
        T.append(Task("run", kw, timeout=600, path_s=200))
    for kind in ("global", "local", "binary", "general:star", "general:ring"):
        add(kind=kind, n=2, d=1, iters=2, procs=2)
        add(kind=kind, n=3, d=1, iters=1, procs=2)
        add(kind=kind, n=2, d=2, iters=2, procs=1)
    add(kind="global", n=2, d=1, iters=2, procs=3)
    add(kind="general:random", n=3, d=1, iters=2, procs=2)
    add(kind="general:vonneumann", n=3, d=1, iters=2, procs=2)
    add(kind="general:pyramid", n=2, d=2, iters=2, procs=2)
    for kind in KINDS:
        few = 1 if kind in ("global", "general:star") else 2
        base = dict(kind=kind, n=few, d=1, k=1)
        add(iters=3 if few == 1 else 2, ftol=1, procs=2, verbose=True, **base)
        add(iters=1, runs=2, procs=2, **base)
        add(iters=2, init=True, clamp=(-0.5, 0.25), procs=3, **base)
        add(iters=2, oh="random", procs=2, **base)
        if kind != "binary":
            add(iters=2, bh="shrink", vh="invert", clamp=(-2.0, 2.0), init=True, procs=2, **base)
            add(iters=2, bh="random", init=True, procs=2, **base)
    if tier == "thorough":
        T += [Task("evaluation", dict(n=n, d=d, procs=p)) for n in range(1, 7) for d in (1, 3) for p in range(1, 9)]
        for kind in ("global", "local", "binary", "general:star", "general:ring"):
            add(kind=kind, n=3, d=2, iters=2, procs=2)
            add(kind=kind, n=2, d=1, iters=3, procs=3)
            add(kind=kind, n=4, d=1, iters=2, procs=3)
        for t in T:
            t.timeout = 1200
            t.path_s = 600
    return T
