"""C18: progress reporting never influences a run."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.single.*.optimize", "pyswarms.discrete.binary.BinaryPSO.optimize",
             "pyswarms.utils.reporter.Reporter.pbar/hook/log"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "iterations": "1..3", "costs": "all IEEE doubles, any "
                    "function of the position", "ftol": "default, and all reals with real costs"},
          "thorough": {"particles": "1..3", "dimensions": "1..3", "iterations": "1..4"}}
ASSUMPTIONS = ["tqdm and logging are contract stubs: the bar yields 0 .. iters-1 and takes notes"]
OUTSIDE = "what the progress bar and the log look like"


def quiet(ctx, kind, n, d, iters, k=2, first=True, ftol=None, real=False, **feat):
    out = []
    kw = features(ctx, kind, n, d, ftol=ftol, **feat)
    real = real or bool(ftol)
    x0 = snapshot(kw["init_pos"]) if "init_pos" in kw else None
    for verbose in (first, not first):
        replay_randomness()
        if x0:
            kw["init_pos"] = ctx.array([v for r in x0 for v in r], "i" if kind == "binary" else "f", (n, d))
        opt = optimizer(ctx, kind, n, d, k=k, **kw)
        obj = Objective(ctx, pure=True, theory="r" if real else "f")
        at = len(ENV.trange)
        res = opt.optimize(obj, iters, verbose=verbose)
        if not verbose:
            ctx.claim("no progress bar without verbosity", len(ENV.trange) == at)
        out.append(Trace(ctx, opt, obj, res))
    ctx.claim("the same positions are evaluated", ctx.and_(
        len(out[0].evals) == len(out[1].evals), [ctx.identical(p[0], q[0]) for p, q in zip(out[0].evals, out[1].evals)]))
    same_trace(ctx, *out)


HARNESSES = {"quiet": quiet}


def tasks(tier):
    T = []

    def add(**kw):
        T.append(Task("quiet", kw, timeout=600, path_s=200))
    for kind in ("global", "local", "binary", "general:star", "general:ring"):
        add(kind=kind, n=2, d=1, iters=2)
        add(kind=kind, n=2, d=2, iters=1, first=False)
        add(kind=kind, n=1 if kind in ("global", "general:star") else 2, d=1, iters=3, k=1, ftol=1)
    for kind in KINDS:
        few = 1 if kind in ("global", "general:star") else 2
        for oh in ({"w": "lin_variation"}, {"c1": "exp_decay", "c2": "nonlin_mod"}, {"w": "random"}):
            if kind != "binary":
                add(kind=kind, n=2, d=1, iters=2, k=2, oh=oh)
                add(kind=kind, n=few, d=1, iters=3, k=1, oh=oh, first=False)
        add(kind=kind, n=few, d=1, iters=4, k=1, ftol=2)
        add(kind=kind, n=few, d=1, iters=3, k=1, ftol=1, first=False, init=True)
        for b in STRATEGIES_B:
            if kind != "binary":
                add(kind=kind, n=few, d=1, iters=2, k=1, bh=b, init=True)
        for v in STRATEGIES_V[1:]:
            add(kind=kind, n=few, d=1, iters=2, k=1, vh=v, clamp=(-2.0, 2.0), bh="nearest")
        add(kind=kind, n=few, d=1, iters=2, k=1, clamp=(-0.5, 0.5), first=False)
    add(kind="general:random", n=3, d=1, iters=2)
    add(kind="general:vonneumann", n=3, d=1, iters=2)
    add(kind="general:pyramid", n=2, d=2, iters=2)
    add(kind="global", n=2, d=1, iters=2, bh="nearest")
    if tier == "thorough":
        for kind in ("global", "local", "binary", "general:star", "general:ring"):
            add(kind=kind, n=3, d=1, iters=2)
            add(kind=kind, n=2, d=3, iters=2, first=False)
            add(kind=kind, n=2, d=1, iters=3)
            add(kind=kind, n=2, d=1, iters=3, ftol=1)
        for t in T:
            t.timeout = 1200
            t.path_s = 600
    return T
