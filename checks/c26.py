"""C26: the benchmark functions have their documented minima."""
from checks import benchmarks as B
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.utils.functions.single_obj.*"]
BOUNDS = {"quick": {"rows": "1", "columns": "2; 1..3 where free", "inputs": "all reals of the domain"},
          "thorough": {"rows": "1..2", "columns": "2; 1..4 where free", "inputs": "all reals of the domain"}}
ASSUMPTIONS = ["exp, sqrt, sin and cos are functions of which only general facts are known (sign, range, symmetry, "
               "monotonicity, special values)"]
OUTSIDE = "that no point is below the minimum of cross-in-tray, eggholder and Holder table (needs more than general facts " \
          "about sin and cos); rounding; more columns than listed"


def at_minimum(ctx, name, d, which=0):
    """the documented minimiser has the documented value"""
    from pyswarms.utils import functions as fx
    points, value, tol = B.MINIMA[name]
    p = points[which]
    p = p(d) if callable(p) else p
    # embedded among arbitrary other rows
    other = [ctx.real("x", *(B.limits(name, d)[j] if B.limits(name, d) else (None, None))) for j in range(d)]
    r = getattr(fx.single_obj, name)(ctx.array(list(p) + other, "f", (2, d)))
    ctx.claim("the documented minimiser has the documented value", ctx.and_(r[0] >= value - tol, r[0] <= value + tol))


def bounded(ctx, name, d, n=1):
    """nothing in the domain is below the documented minimum"""
    from pyswarms.utils import functions as fx
    lim = B.limits(name, d)
    if name == "goldstein":      # any point, by its two characteristic coordinates
        vals = []
        for _ in range(n):
            s, t = ctx.real("s"), ctx.real("t")
            vals += [(3 * s + t - 3) / 5, (2 * s - t - 2) / 5]
        for j, v in enumerate(vals):
            ctx.assume(ctx.and_(v >= -2, v <= 2))
    else:
        vals = [ctx.real("x", *(lim[j] if lim else (None, None))) for _ in range(n) for j in range(d)]
    r = getattr(fx.single_obj, name)(ctx.array(vals, "f", (n, d)))
    for i in range(n):
        ctx.claim("no point of the domain is below the documented minimum", ctx.ge(r[i], B.MINIMA[name][1]))


HARNESSES = {"at_minimum": at_minimum, "bounded": bounded}


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=600, path_s=200))
    for name in B.FORMULAS:
        dims = (1, 2, 3) if name in B.FREE else (2,)
        if tier == "thorough" and name in B.FREE:
            dims += (4,)
        for d in dims:
            for w in range(len(B.MINIMA[name][0])):
                add("at_minimum", name=name, d=d, which=w)
            if name not in ("crossintray", "eggholder", "holdertable"):
                add("bounded", name=name, d=d)
                if tier == "thorough":
                    add("bounded", name=name, d=d, n=2)
    return T
