"""C24: the benchmark functions compute their published formulas, row by row."""
from checks import benchmarks as B
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.utils.functions.single_obj.*"]
BOUNDS = {"quick": {"rows": "1..3", "columns": "2; 1..3 where free", "inputs": "all reals of the domain"},
          "thorough": {"rows": "1..5", "columns": "2; 1..5 where free", "inputs": "all reals of the domain"}}
ASSUMPTIONS = ["exp, sqrt, sin, cos and real powers are functions of which only general facts are known "
               "(sign, range, symmetry, monotonicity, special values)"]
OUTSIDE = "rounding; more rows or columns than listed. Levi: the formula is the one the library has always computed " \
          "(the second term uses x - 1, not w - 1)"


def inputs(ctx, name, n, d):
    lim = B.limits(name, d)
    vals = []
    for _ in range(n):
        for j in range(d):
            lo, hi = lim[j] if lim else (None, None)
            vals.append(ctx.real("x", lo, hi))
    return ctx.array(vals, "f", (n, d))


def formula(ctx, name, n, d):
    from pyswarms.utils import functions as fx
    x = inputs(ctx, name, n, d)
    keep = snapshot(x)
    r = getattr(fx.single_obj, name)(x)
    ctx.claim("one cost per row", shape_of(r) == (n,))
    ctx.claim("the input is left alone", ctx.identical(x, keep))
    m = B.Maths(ctx)
    for i in range(n):
        ctx.claim("%s follows its formula" % name, ctx.same(r[i], B.FORMULAS[name](m, *keep[i])))
    ctx.claim("the input is left alone", ctx.identical(x, keep))


HARNESSES = {"formula": formula}


def tasks(tier):
    T = []
    for name in B.FORMULAS:
        sizes = [(1, 2), (2, 2), (3, 2)]
        if name in B.FREE:
            sizes += [(1, 1), (2, 1), (1, 3), (2, 3)]
        if tier == "thorough":
            sizes += [(5, 2)] + ([(3, 4), (2, 5), (4, 1)] if name in B.FREE else [])
        for n, d in sizes:
            if name in ("crossintray", "holdertable", "bukin6", "eggholder") and n > 2 and tier == "quick":
                continue
            T.append(Task("formula", dict(name=name, n=n, d=d), timeout=600, path_s=200))
    return T
