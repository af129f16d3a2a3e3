"""C27: grid search tries every combination once and returns the best."""
from checks.common import *
from checks.searches import *
from symx.run import Task

FUNCTIONS = ["pyswarms.utils.search.base_search.SearchBase", "pyswarms.utils.search.grid_search.GridSearch"]
BOUNDS = {"quick": {"values per option": "1..3, all reals", "combinations": "1..12", "scores": "all IEEE doubles but nan",
                    "optimizers": "a recording one; the two real ones with 1..2 particles"},
          "thorough": {"values per option": "1..4", "combinations": "1..36"}}
ASSUMPTIONS = []
OUTSIDE = "more combinations than listed"


def certainly(ctx, c):
    return holds_identically(ctx, c) if ctx.sym else bool(c)


def grid(ctx, sizes, maximum=False, bounds=True, clamp="given", again=False, fixed=None):
    """sizes: option -> number of values (0: a plain value)"""
    from pyswarms.utils.search import GridSearch
    rec = Recorder(ctx, fixed)
    user = {}
    for k, m in sizes:
        if k in ("k", "p"):
            user[k] = [1 + i for i in range(m)] if m else 2
        else:
            user[k] = [ctx.real(k) for _ in range(m)] if m else ctx.real(k)
    generic(ctx, [v for k, v in user.items() if k not in ("k", "p") for v in (v if isinstance(v, list) else [v])])
    keep = {k: list(v) if isinstance(v, list) else v for k, v in user.items()}
    objs = {k: v for k, v in user.items()}
    n, d, iters = 7, 3, 11
    bd = ([0.0] * d, [1.0] * d) if bounds else None
    kw = {}
    cl = (0, 1)
    if clamp is None:
        cl = kw["velocity_clamp"] = None
    elif clamp == "given":
        cl = kw["velocity_clamp"] = (-3.0, 2.0)
    if bd is not None:
        kw["bounds"] = bd

    def fn(x):
        return None
    gs = GridSearch(rec.cls, n_particles=n, dimensions=d, options=user, objective_func=fn, iters=iters, **kw)
    combos = [dict(zip(keep, c)) for c in itertools.product(*[v if isinstance(v, list) else [v] for v in keep.values()])]
    for t in range(2 if again else 1):
        del rec.runs[:]
        best, opts = gs.search(maximum) if maximum else gs.search()
        runs = rec.runs
        ctx.claim("as many runs as combinations", len(runs) == len(combos))
        for c in combos:
            ctx.claim("every combination is tried exactly once",
                      sum(certainly(ctx, same_options(ctx, r["options"], c)) for r in runs) == 1)
        best_claims(ctx, runs, best, opts, maximum)
        ctx.claim("the search keeps what it found", ctx.and_(ctx.identical(gs.best_score, best),
                                                             same_options(ctx, gs.best_options, opts)))
        if clamp == "given":
            built_right(ctx, runs, n, d, bd, cl, fn, iters)
        else:
            for r in runs:
                ctx.claim("every optimizer gets the user's setting", ctx.and_(
                    r["clamp"] is None if clamp is None else tuple(r["clamp"]) == (0, 1), same_thing(r["bounds"], bd)))
    ctx.claim("the user's options are left alone", list(user) == list(keep) and all(
        user[k] is objs[k] and (not isinstance(keep[k], list) or len(keep[k]) == len(user[k]) and
                                all(a is b for a, b in zip(keep[k], user[k]))) for k in keep))


def real(ctx, kind, n, iters, ws, ks=(1,), maximum=False):
    """with the library's own optimizers"""
    import pyswarms as ps
    from pyswarms.utils.search import GridSearch
    cls = ps.single.GlobalBestPSO if kind == "global" else ps.single.LocalBestPSO
    obj = Objective(ctx, nonan=True)
    opts = {"c1": [0.5, 0.75], "c2": 0.25, "w": list(ws)}
    if kind == "local":
        opts.update(k=list(ks), p=2)
    gs = GridSearch(cls, n_particles=n, dimensions=1, options=opts, objective_func=obj, iters=iters)
    m = 2 * len(ws) * (len(ks) if kind == "local" else 1)
    best, got = gs.search(maximum=maximum)
    ctx.claim("as many runs as combinations", len(obj.calls) == m * iters)
    if len(obj.calls) != m * iters:
        return
    per_run = [ctx.min([c for call in obj.calls[i * iters:(i + 1) * iters] for c in call[1]]) for i in range(m)]
    # the first run which is best, in any order of the grid: the score is right whatever the options
    ctx.claim("the reported score is the best of the runs", ctx.and_(
        [best >= s if maximum else best <= s for s in per_run], ctx.or_([ctx.identical(best, s) for s in per_run])))
    ctx.claim("the reported options are a combination", sorted(got) == sorted(opts) and all(
        got[k] in (v if isinstance(v, list) else [v]) for k, v in opts.items()))


def refused(ctx, what):
    from pyswarms.utils.search import GridSearch

    class NoOptimizer:
        pass
    try:
        GridSearch(NoOptimizer, n_particles=2, dimensions=1, options={"c1": [1, 2]}, objective_func=None, iters=1)
    except TypeError:
        ctx.claim("an optimizer that cannot optimize is refused", True)
        return
    ctx.claim("an optimizer that cannot optimize is refused", False)


HARNESSES = {"grid": grid, "real": real, "refused": refused}


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=600, path_s=200))
    full = (("c1", 2), ("c2", 0), ("w", 2), ("k", 2), ("p", 0))
    some = (3.0, -1.0, 5.0, -2.0, 5.5, 0.0, 7.0, 1.5, -2.5, 6.5, 2.0)
    for mx in (False, True):
        add("grid", sizes=full, maximum=mx, fixed=some)
        add("grid", sizes=(("c1", 1), ("c2", 3), ("w", 0)), maximum=mx, bounds=False)
        add("grid", sizes=(("w", 3), ("p", 2), ("c1", 1), ("k", 2)), maximum=mx, fixed=some)
        add("grid", sizes=(("c1", 0), ("c2", 0), ("w", 0)), maximum=mx)
        add("grid", sizes=(("c1", 2), ("c2", 2)), maximum=mx, again=True, fixed=some[:9])
        add("grid", sizes=(("c1", 2), ("c2", 2)), maximum=mx)
        add("grid", sizes=(("c1", 2), ("w", 1)), maximum=mx, clamp="default", bounds=False, again=True)
        add("grid", sizes=(("c1", 2), ("w", 1)), maximum=mx, clamp=None, bounds=False)
        add("grid", sizes=(("c1", 0), ("w", 2)), maximum=mx, clamp=None)
        add("real", kind="global", n=1, iters=1, ws=(0.5, 0.9), maximum=mx)
        add("real", kind="global", n=2, iters=1, ws=(0.5,), maximum=mx)
        add("real", kind="local", n=2, iters=1, ws=(0.5,), ks=(1, 2) if tier == "thorough" else (2,), maximum=mx)
        if tier == "thorough":
            add("grid", sizes=(("c1", 3), ("c2", 3), ("w", 2), ("k", 2), ("p", 0)), maximum=mx, fixed=some)
            add("grid", sizes=(("c1", 2), ("c2", 3)), maximum=mx)
            add("real", kind="global", n=1, iters=2, ws=(0.5, 0.9), maximum=mx)
    add("refused", what="optimizer")
    return T
