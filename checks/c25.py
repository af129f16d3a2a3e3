"""C25: the benchmark functions accept exactly their documented domains."""
from checks import benchmarks as B
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.utils.functions.single_obj.*"]
BOUNDS = {"quick": {"rows": "1..3", "columns": "1..4", "inputs": "all reals; infinities and nan one at a time"},
          "thorough": {"rows": "1..5", "columns": "1..6", "inputs": "all reals; infinities and nan one at a time"}}
ASSUMPTIONS = []
OUTSIDE = "more rows or columns than listed"


def inside(ctx, name, x, d):
    lim = B.limits(name, d)
    if lim is None:
        return ctx.and_(True)
    return ctx.and_([ctx.and_(lim[j][0] <= v, v <= lim[j][1]) for row in x for j, v in enumerate(row)])


def domain(ctx, name, n, d):
    """in: a value for every row; out: an error"""
    from pyswarms.utils import functions as fx
    x = ctx.reals("x", n, d)
    keep = snapshot(x)
    ok = inside(ctx, name, keep, d)
    try:
        r = getattr(fx.single_obj, name)(x)
    except ValueError:
        ctx.claim("inputs within the domain are accepted", ctx.not_(ok))
        return
    ctx.claim("inputs outside the domain are rejected", ok)
    ctx.claim("one cost per row", shape_of(r) == (n,))
    ctx.claim("the input is left alone", ctx.identical(x, keep))


def special(ctx, name, n, d, value, i, j):
    """an infinite or undefined coordinate is in no bounded domain"""
    from pyswarms.utils import functions as fx
    lim = B.limits(name, d)
    vals = []
    for a in range(n):
        for b in range(d):
            lo, hi = lim[b]
            vals.append(float(value) if (a, b) == (i, j) else ctx.real("x", lo, hi))
    try:
        getattr(fx.single_obj, name)(ctx.array(vals, "f", (n, d)))
    except ValueError:
        ctx.claim("inputs outside the domain are rejected", True)
        return
    ctx.claim("inputs outside the domain are rejected", False)


def columns(ctx, name, n, d):
    """two-dimensional functions refuse everything else, whatever the values"""
    from pyswarms.utils import functions as fx
    x = ctx.reals("x", n, d)
    try:
        getattr(fx.single_obj, name)(x)
    except IndexError:
        ctx.claim("other numbers of columns are rejected", True)
        return
    except ValueError:
        # both complaints are right when the values are out of bounds as well
        lim = B.limits(name, 2)
        ctx.claim("other numbers of columns are rejected", ctx.or_(
            [ctx.or_(v < lim[min(j, 1)][0], v > lim[min(j, 1)][1]) for row in rows(x) for j, v in enumerate(row)]))
        return
    ctx.claim("other numbers of columns are rejected", False)


HARNESSES = {"domain": domain, "special": special, "columns": columns}


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=600, path_s=200))
    for name in B.FORMULAS:
        sizes = [(1, 2), (2, 2), (3, 2)] + ([(1, 1), (2, 3), (1, 4)] if name in B.FREE else [])
        if tier == "thorough":
            sizes += [(5, 2)] + ([(3, 4), (2, 6)] if name in B.FREE else [])
        for n, d in sizes:
            add("domain", name=name, n=n, d=d)
        if B.DOMAINS[name] is not None:
            for v in ("inf", "-inf", "nan"):
                add("special", name=name, n=2, d=2, value=v, i=0, j=1)
                add("special", name=name, n=2, d=2, value=v, i=1, j=0)
        if name not in B.FREE:
            for n, d in ((1, 1), (2, 3), (1, 4), (2, 1)) + (((3, 5),) if tier == "thorough" else ()):
                add("columns", name=name, n=n, d=d)
    return T
