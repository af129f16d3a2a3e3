"""C28: random search tries the asked number of settings and returns the best."""
from checks.common import *
from checks.searches import *
from symx.run import Task

FUNCTIONS = ["pyswarms.utils.search.base_search.SearchBase", "pyswarms.utils.search.random_search.RandomSearch"]
BOUNDS = {"quick": {"settings": "1..4", "ranges": "all reals", "scores": "all IEEE doubles but nan"},
          "thorough": {"settings": "1..8", "ranges": "all reals", "scores": "all IEEE doubles but nan"}}
ASSUMPTIONS = ["numpy.random.uniform(a, b) is a + (b - a) u and randint(a, b) an integer in [a, b)"]
OUTSIDE = "more settings than listed; rounding"


def certainly(ctx, c):
    return holds_identically(ctx, c) if ctx.sym else bool(c)


def settings(ctx, m, maximum=False, bounds=True, again=False, krange=(2, 5), cl=(-3.0, 2.0)):
    from pyswarms.utils.search import RandomSearch
    rec = Recorder(ctx)
    lo = {k: ctx.real(k + "_lo", -8, 8) for k in ("c1", "c2", "w")}
    hi = {k: ctx.real(k + "_hi", -8, 8) for k in ("c1", "c2", "w")}
    for k in lo:
        ctx.assume(lo[k] + 0.125 <= hi[k])
    user = {k: [lo[k], hi[k]] for k in lo}
    user["k"], user["p"] = list(krange), 2
    lists = dict(user)
    n, d, iters = 7, 3, 11
    bd = ([0.0] * d, [1.0] * d) if bounds else None
    kw = {"bounds": bd} if bounds else {}
    def fn(x):
        return None
    rs = RandomSearch(rec.cls, n_particles=n, dimensions=d, options=user, objective_func=fn, iters=iters,
                      n_selection_iters=m, velocity_clamp=cl, **kw)
    for t in range(2 if again else 1):
        del rec.runs[:]
        since = len(ENV.draws)
        best, opts = rs.search(maximum) if maximum else rs.search()
        runs = rec.runs
        ctx.claim("as many runs as asked for", len(runs) == m)
        draws = unit_draws(since)
        used = []
        for r in runs:
            o = r["options"]
            if sorted(o) != ["c1", "c2", "k", "p", "w"]:
                ctx.claim("settings have all options", False)
                return
            for k in lo:
                ctx.claim("coefficients lie within their ranges", ctx.and_(ctx.le(lo[k], o[k]), ctx.le(o[k], hi[k])))
                fits = [i for i, u in enumerate(draws) if certainly(ctx, ctx.same(o[k], lo[k] + (hi[k] - lo[k]) * u))]
                if ctx.sym:
                    ctx.claim("coefficients are uniform over their ranges", len(fits) >= 1)
                    used += fits[:1]
            ctx.claim("the number of neighbours is an integer of its range", ctx.and_(
                o["k"] >= krange[0], o["k"] < krange[1]))
            ctx.claim("the norm is the given one", o["p"] == 2)
        if ctx.sym:
            ctx.claim("every coefficient has its own random number", len(set(used)) == len(used))
        best_claims(ctx, runs, best, opts, maximum)
        built_right(ctx, runs, n, d, bd, cl, fn, iters)
    ctx.claim("the user's options are left alone", sorted(user) == sorted(lists) and user["p"] == 2 and all(
        user[k] is lists[k] for k in lists) and user["k"] == list(krange) and all(
        len(user[k]) == 2 and user[k][0] is lo[k] and user[k][1] is hi[k] for k in lo))


def possible(ctx, m, krange):
    """every integer of the range can be drawn, in every setting"""
    from pyswarms.utils.search import RandomSearch
    rec = Recorder(ctx)
    user = {"c1": [0.0, 1.0], "c2": [0.0, 1.0], "w": [0.0, 1.0], "k": list(krange), "p": 1}
    rs = RandomSearch(rec.cls, n_particles=2, dimensions=1, options=user, objective_func=None, iters=1,
                      n_selection_iters=m)
    rs.search()
    ctx.claim("as many runs as asked for", len(rec.runs) == m)
    if not ctx.sym:
        return
    for r in rec.runs:
        for v in range(*krange):
            c = r["options"]["k"] == v
            ok = bool(c) if not hasattr(c, "e") else eng().feasible(c.e)
            ctx.claim("every integer of the range can be drawn", ok)


def refused(ctx, what):
    from pyswarms.utils.search import RandomSearch

    class NoOptimizer:
        pass
    opts = {"c1": [1, 2], "c2": [1, 2], "w": [1, 2], "k": [1, 2], "p": 1}
    try:
        if what == "optimizer":
            RandomSearch(NoOptimizer, n_particles=2, dimensions=1, options=opts, objective_func=None, iters=1,
                         n_selection_iters=2)
        else:
            RandomSearch(Recorder(ctx).cls, n_particles=2, dimensions=1, options=opts, objective_func=None, iters=1,
                         n_selection_iters={"float": 2.5, "text": "3", "none": None}[what])
    except TypeError:
        ctx.claim("nonsense is refused", True)
        return
    ctx.claim("nonsense is refused", False)


def real(ctx, kind, m, iters=1, maximum=False):
    """with the library's own optimizers"""
    import pyswarms as ps
    from pyswarms.utils.search import RandomSearch
    cls = ps.single.GlobalBestPSO if kind == "global" else ps.single.LocalBestPSO
    obj = Objective(ctx, nonan=True)
    n = 1 if kind == "global" else 2
    opts = {"c1": [0.5, 0.75], "c2": [0.25, 0.5], "w": [0.5, 0.9], "k": [1, 2], "p": 2}
    rs = RandomSearch(cls, n_particles=n, dimensions=1, options=opts, objective_func=obj, iters=iters,
                      n_selection_iters=m)
    best, got = rs.search(maximum=maximum)
    ctx.claim("as many runs as asked for", len(obj.calls) == m * iters)
    if len(obj.calls) != m * iters:
        return
    per_run = [ctx.min([c for call in obj.calls[i * iters:(i + 1) * iters] for c in call[1]]) for i in range(m)]
    ctx.claim("the reported score is the best of the runs", ctx.and_(
        [best >= s if maximum else best <= s for s in per_run], ctx.or_([ctx.identical(best, s) for s in per_run])))


HARNESSES = {"settings": settings, "possible": possible, "refused": refused, "real": real}


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=600, path_s=200))
    for mx in (False, True):
        for m in (1, 2, 3, 4) + ((6, 8) if tier == "thorough" else ()):
            add("settings", m=m, maximum=mx)
        add("settings", m=2, maximum=mx, bounds=False, again=True, krange=(1, 3))
        add("settings", m=1, maximum=mx, cl=None)
        add("settings", m=2, maximum=mx, bounds=False, cl=None)
        for kind in ("global", "local"):
            add("real", kind=kind, m=2, maximum=mx)
    add("possible", m=2, krange=(1, 4))
    add("possible", m=1, krange=(3, 8))
    for w in ("optimizer", "float", "text", "none"):
        add("refused", what=w)
    return T
