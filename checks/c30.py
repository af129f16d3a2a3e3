"""C30: the library never writes to what the user hands in, and passes the objective exactly the user's arguments."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.single.*", "pyswarms.discrete.binary.BinaryPSO", "pyswarms.base.*", "pyswarms.backend.generators.*",
             "pyswarms.backend.handlers.*", "pyswarms.backend.operators.*"]
BOUNDS = {"quick": {"particles": "1..2", "dimensions": "1..2", "iterations": "2..3", "boundary strategies": "all six",
                    "velocity strategies": "all four", "option strategies": "all four", "values": "all reals, IEEE costs"},
          "thorough": {"particles": "1..3", "dimensions": "1..2", "iterations": "2..4"}}
ASSUMPTIONS = []
OUTSIDE = "more particles, dimensions or iterations than listed"


class Keeping(Objective):
    """keeps the arrays it was given and returned"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.returned = []

    def __call__(self, x, **kw):
        r = super().__call__(x, **kw)
        self.returned.append((r, r.copy()))
        return r


def untouched(ctx, kind, n, d, iters, bh=None, vh=None, oh=None, clamp=None, init=False, center=False, k=2, runs=1,
              theory="f", script=False, resets=False, ftol=None, verbose=False, procs=None, static=False):
    opts = dict(OPTS)
    if kind in ("local", "binary"):
        opts.update(k=k, p=2)
    elif kind.startswith("general:"):
        opts.update(gbest_kw(kind.split(":")[1], k, 2))
    user = {"options": (opts, dict(opts))}
    arrays_ = {}
    kw = {}
    if bh:
        lb, ub = ctx.array([-1.0] * d, "f"), ctx.array([2.0] * d, "f")
        arrays_["bounds"] = [(lb, lb.copy()), (ub, ub.copy())]
        kw["bounds"] = (lb, ub)
        kw["bh_strategy"] = bh
    if vh:
        kw["vh_strategy"] = vh
    if oh:
        kw["oh_strategy"] = {"c1": oh, "w": "lin_variation", "c2": STRATEGIES_O[STRATEGIES_O.index(oh) - 1]}
        user["option strategies"] = (kw["oh_strategy"], dict(kw["oh_strategy"]))
    if clamp == "array":
        a, b = ctx.array([-2.0] * d, "f"), ctx.array([2.0] * d, "f")
        arrays_["clamp"] = [(a, a.copy()), (b, b.copy())]
        kw["velocity_clamp"] = (a, b)
    elif clamp:
        kw["velocity_clamp"] = (-2.0, 2.0)
    if init:
        if kind == "binary":
            x = ctx.ints("init", n, d, lo=0, hi=1)
        else:
            x = ctx.reals("init", n, d, lo=-1, hi=2)
        arrays_["initial positions"] = [(x, x.copy())]
        kw["init_pos"] = x
    if center:
        c = ctx.reals("center", d)
        arrays_["centre"] = [(c, c.copy())]
        kw["center"] = c
    if ftol:
        kw.update(ftol=ctx.real("ftol", lo=0, hi=8), ftol_iter=ftol)
    import pyswarms as ps
    if kind == "global":
        opt = ps.single.GlobalBestPSO(n, d, opts, **kw)
    elif kind == "local":
        opt = ps.single.LocalBestPSO(n, d, opts, **kw)
    elif kind == "binary":
        opt = ps.discrete.BinaryPSO(n, d, opts, **kw)
    else:
        opt = ps.single.GeneralOptimizerPSO(n, d, opts, topology(kind.split(":")[1]), **kw)
    arg = ctx.reals("arg", 2)
    arrays_["objective arguments"] = [(arg, arg.copy())]
    for r in range(runs):
        if r and resets:
            opt.reset()
        obj = Keeping(ctx, theory=theory, script=[[1.0 + i + 10 * t for i in range(n)] for t in range(iters)]
                      if script else None)
        opt.optimize(obj, iters, verbose=verbose, a=arg, flag="yes", **({"n_processes": procs} if procs else {}))
        for _, _, got in obj.calls:
            ctx.claim("the objective gets exactly the user's arguments", ctx.and_(
                sorted(got) == ["a", "flag"], got.get("flag") == "yes", ctx.identical(got["a"], arg)))
        for x, y in obj.returned:
            ctx.claim("arrays returned by the objective are left alone", ctx.identical(x, y))
        for nm, pairs in arrays_.items():
            for x, y in pairs:
                ctx.claim("the user's %s are left alone" % nm, ctx.identical(x, y))
        for nm, (x, y) in user.items():
            ctx.claim("the user's %s are left alone" % nm, sorted(x) == sorted(y) and all(x[q] == y[q] for q in y))


HARNESSES = {"untouched": untouched}


def tasks(tier):
    T = []

    def add(**kw):
        T.append(Task("untouched", kw, timeout=600, path_s=200))
    for kind in ("global", "local", "binary", "general:star", "general:ring"):
        add(kind=kind, n=2, d=1, iters=2, init=True)
        add(kind=kind, n=2, d=2, iters=2, clamp=True)
        star = kind in ("global", "general:star")
        if kind != "binary":
            add(kind=kind, n=2 if star else 1, k=1, d=1, iters=2, bh="nearest", clamp=True, init=True, oh="exp_decay",
                script=True)
            add(kind=kind, n=1, k=1, d=1, iters=3, oh="random", center=True, runs=2, resets=True, script=True)
        else:
            add(kind=kind, n=2, d=1, iters=2, init=True, runs=2, resets=True)
    for kind in KINDS:
        star = kind in ("global", "general:star")
        base = dict(kind=kind, n=1 if star else 2, k=1, d=1)
        add(iters=3, ftol=1, verbose=True, theory="r", **base)
        add(iters=2, init=True, runs=2, verbose=True, **base)
        add(iters=2, procs=2, script=False, init=True, **base)
        add(iters=2, clamp="array", runs=2, resets=True, init=True, **base)
        if kind != "binary":
            for b in STRATEGIES_B:
                add(iters=2, bh=b, init=True, script=True, clamp="array", runs=2, resets=True, **dict(base, n=1))
            for v in STRATEGIES_V:
                add(iters=2, bh="nearest", vh=v, init=True, script=True, clamp=True, center=True, **dict(base, n=1))
            for o in STRATEGIES_O:
                add(iters=2, oh=o, script=True, runs=2, **base)
    for b in STRATEGIES_B:
        add(kind="global", n=1, d=1, iters=3, bh=b, init=True, script=True, clamp=True)
        add(kind="global", n=1, d=2, iters=2, bh=b, init=True, script=True, clamp="array")
    for v in STRATEGIES_V:
        add(kind="global", n=1, d=1, iters=3, bh="nearest", vh=v, init=True, script=True, clamp=True)
        add(kind="general:ring", n=1, k=1, d=2, iters=2, bh="periodic", vh=v, init=True, script=True, clamp="array")
    for o in STRATEGIES_O:
        add(kind="global", n=2, d=1, iters=3, oh=o, script=True)
    add(kind="general:random", n=3, d=1, iters=2, init=True)
    add(kind="general:vonneumann", n=3, d=1, iters=2, init=True)
    add(kind="general:pyramid", n=2, d=2, iters=2, init=True)
    if tier == "thorough":
        for b in STRATEGIES_B:
            for v in STRATEGIES_V:
                add(kind="global", n=2, d=1, iters=2, bh=b, vh=v, init=True, script=True, clamp=True)
                add(kind="local", n=1, k=1, d=1, iters=3, bh=b, vh=v, init=True, script=True, clamp=True, runs=2)
        for t in T:
            t.timeout = 1200
            t.path_s = 600
    return T
