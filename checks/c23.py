"""C23: a decorated scalar cost function is evaluated once per particle, on that particle's position."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.utils.decorators.decorators.cost", "pyswarms.single.*.optimize",
             "pyswarms.backend.operators.compute_objective_function"]
BOUNDS = {"quick": {"particles": "1..4", "dimensions": "1..3", "costs": "any function of the position and a keyword "
                    "argument (all IEEE doubles), integers", "iterations": "1..2"},
          "thorough": {"particles": "1..6", "dimensions": "1..4", "iterations": "1..3"}}
ASSUMPTIONS = []
OUTSIDE = "more particles or dimensions than listed"


def decorated(ctx, n, d, kind="float", kwargs=True):
    import pyswarms
    x = ctx.reals("pos", n, d)
    keep = snapshot(x)
    a = ctx.real("a")
    seen = []

    def f(p, **kw):
        """documented"""
        r = scalars(p)
        seen.append((r, kw))
        ctx.claim("the function sees one position", shape_of(p) == (d,))
        if kind == "int":
            return ctx.int("cost", -5, 5)
        return ctx.apply("f", r + ([kw["a"]] if kwargs else []), "f")

    g = pyswarms.cost(f)
    out = g(x, a=a) if kwargs else g(x)
    ctx.claim("one cost per particle", shape_of(out) == (n,))
    ctx.claim("the function is called once per particle, in order", ctx.and_(
        len(seen) == n, [ctx.identical(s[0], k) for s, k in zip(seen, keep)]))
    if kwargs:
        ctx.claim("arguments are passed on", ctx.and_([sorted(s[1]) == ["a"] and True for s in seen],
                                                      [ctx.identical(s[1]["a"], a) for s in seen]))
    if kind == "float":
        for i in range(n):
            ctx.claim("the cost of a particle is the function's value there", ctx.identical(
                out[i], ctx.apply("f", keep[i] + ([a] if kwargs else []), "f")))
    ctx.claim("positions are left alone", ctx.identical(x, keep))
    ctx.claim("name and documentation are kept", g.__name__ == "f" and g.__doc__ == "documented")


def rejects(ctx, n, d, what):
    """anything but one number per particle is an error"""
    import pyswarms
    x = ctx.reals("pos", n, d)

    def f(p):
        if what == "vector":
            return p * 1.0
        if what == "row":
            return ctx.array([p[0]], "f")
        return ctx.array([p[0], p[0]], "f")

    try:
        out = pyswarms.cost(f)(x)
    except ValueError:
        ctx.claim("an error is raised", True)
        return
    ctx.claim("costs that are no numbers are rejected", False)


def run(ctx, kind, n, d, iters, procs=None, k=2):
    """a run with a decorated function equals the run with its vectorised form"""
    import pyswarms
    out = []
    for dec in (False, True):
        replay_randomness()
        opt = optimizer(ctx, kind, n, d, k=k)
        obj = Objective(ctx, pure=True)
        fn = pyswarms.cost(lambda p: ctx.apply("cost", scalars(p), "f")) if dec else obj
        res = opt.optimize(fn, iters, n_processes=procs if dec else None, verbose=False)
        out.append(Trace(ctx, opt, obj, res))
    same_trace(ctx, *out)


HARNESSES = {"decorated": decorated, "rejects": rejects, "run": run}


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=600, path_s=200))
    for n, d in ((1, 1), (2, 1), (1, 3), (3, 2), (4, 2)) + (((6, 4), (5, 1)) if tier == "thorough" else ()):
        add("decorated", n=n, d=d)
        add("decorated", n=n, d=d, kwargs=False)
    add("decorated", n=3, d=2, kind="int")
    for w in ("vector", "row", "pair"):
        add("rejects", n=2, d=2, what=w)
        add("rejects", n=1, d=1, what=w)
        add("rejects", n=3, d=2, what=w)
    for kind in ("global", "local", "binary", "general:star", "general:ring"):
        add("run", kind=kind, n=2, d=1, iters=2)
        add("run", kind=kind, n=3, d=1, iters=1, procs=2)
        if tier == "thorough":
            add("run", kind=kind, n=2, d=2, iters=2)
            add("run", kind=kind, n=3, d=1, iters=2, procs=2)
    return T
