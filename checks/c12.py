"""C12: during a run every iteration uses the coefficients its schedule prescribes."""
from checks.c11 import KEYS, expected
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.single.global_best.GlobalBestPSO.optimize", "pyswarms.single.local_best.LocalBestPSO.optimize",
             "pyswarms.single.general_optimizer.GeneralOptimizerPSO.optimize",
             "pyswarms.backend.handlers.OptionsHandler", "pyswarms.backend.operators.compute_velocity"]
BOUNDS = {"quick": {"particles": "2..3", "dimensions": "1..2", "iterations": "2..4, 1..2 runs", "coefficients": "all reals",
                    "positions, velocities, random numbers": "all reals for two iterations, fixed ones for longer runs",
                    "schedules": "each strategy on each coefficient, and mixtures", "costs": "one fixed sequence"},
          "thorough": {"particles": "2..3", "dimensions": "1..2", "iterations": "2..8",
                       "schedules": "every assignment of strategies to coefficients"}}
ASSUMPTIONS = ["exp and real powers are uninterpreted functions with positivity, monotonicity and unit facts"]
OUTSIDE = "other cost sequences (the velocity rule itself is C05); more particles, dimensions or iterations than listed"


def schedule(ctx, kind, strategies, n, d, iters, runs=1, static=False, fixed=False, reset=False, k=None):
    """fixed: fixed random numbers and start, every value of the coefficients"""
    ENV.fixed = fixed
    start = {k: ctx.real("start_" + k) for k in KEYS}
    strat = {k: s for k, s in zip(KEYS, strategies) if s}
    user = dict(strat)
    opt = optimizer(ctx, kind, n, d, k=k or n, static=static, options=start, oh_strategy=strat if strat else None,
                    init_pos=ctx.array([0.375 + 1.25 * i - 0.5 * j for i in range(n) for j in range(d)], "f", (n, d))
                    if fixed else ctx.reals("init", n, d))
    # particle 0 is the best of all, and every particle's first position stays its best
    for r in range(runs):
        if r and reset:
            opt.reset()
        at = len(opt.pos_history)
        marks = []
        obj = Objective(ctx, script=[[float(1 + 10 * t + i) for i in range(n)] for t in range(iters)],
                        hook=lambda x, kw: marks.append(len(unit_draws())))
        opt.optimize(obj, iters, verbose=False)
        X, V = [rows(p) for p in opt.pos_history[at:]], [rows(v) for v in opt.velocity_history[at:]]
        ctx.claim("every iteration is recorded", len(X) == iters and len(V) == iters)
        everything = unit_draws()
        for t in range(iters - 1):
            # those drawn between two evaluations, if any
            draws = everything[marks[t]:marks[t + 1]]
            draws = draws if len(draws) > 1 else everything
            # runs call the schedule once per coefficient: the extra draws of a random one are anywhere
            coef = {k: (expected(ctx, strat[k], start, k, t, iters, {}, draws) if k in strat else [start[k]])
                    for k in KEYS}
            for i in range(n):
                for j in range(d):
                    alts = []
                    for w, c1, c2 in itertools.product(coef["w"], coef["c1"], coef["c2"]):
                        for a, b in itertools.permutations(draws, 2):
                            alts.append((w, c1, c2, a, b))
                    v, x, pb, gb = V[t][i][j], X[t][i][j], X[0][i][j], X[0][0][j]
                    ctx.claim("every iteration uses its scheduled coefficients", some_fits(
                        ctx, alts, V[t + 1][i][j], v, x, pb, gb))
        ctx.claim("the initial coefficients are left alone", ctx.and_(
            [ctx.identical(opt.options[k], start[k]) for k in KEYS]))
    ctx.claim("the schedule is left alone", user == strat)


def some_fits(ctx, alts, new, v, x, pb, gb):
    got = []
    if ctx.sym and len(alts) > 2:
        alts = plausible(new, alts, v, x, pb, gb) or alts
    for w, c1, c2, a, b in alts:
        c = ctx.same(new, attraction(ctx, w, c1, c2, v, x, pb, gb, a, b))
        if not ctx.sym:
            if c:
                return True
            continue
        if z3.is_true(c.exact):
            return c
        got.append(c)
    return ctx.or_(got)


def plausible(new, alts, v, x, pb, gb):
    """those that agree at one point (any one may be left out or kept: the claim is their disjunction)"""
    sub = [(u, z3.Q(3 + 7 * i, 11 + 2 * i)) for i, u in enumerate(eng().vars.values()) if z3.is_real(u)]

    def at(e):
        e = e.e if isinstance(e, SymNum) else e
        return z3.substitute(e, sub) if z3.is_expr(e) else z3.Q(*float(e).as_integer_ratio())
    new, v, x, pb, gb = map(at, (new, v, x, pb, gb))
    out = []
    for w, c1, c2, a, b in alts:
        d = z3.simplify(new - attraction(None, at(w), at(c1), at(c2), v, x, pb, gb, at(a), at(b)), som=True)
        if not z3.is_rational_value(d) or d.as_fraction() == 0:
            out.append((w, c1, c2, a, b))
    return out


HARNESSES = {"schedule": schedule}


def tasks(tier):
    T = []

    def add(**kw):
        T.append(Task("schedule", kw, timeout=600, path_s=200))
    kinds = ("global", "local", "general:star", "general:ring")
    MIX = (("lin_variation", "exp_decay", "nonlin_mod"), ("exp_decay", "nonlin_mod", "lin_variation"),
           ("nonlin_mod", "lin_variation", "exp_decay"))
    for kind in kinds:
        for m in MIX:
            add(kind=kind, strategies=m, n=2, d=1, iters=4, fixed=True)
        add(kind=kind, strategies=MIX[0], n=2, d=1, iters=3, runs=2, fixed=True)
        add(kind=kind, strategies=MIX[1], n=2, d=1, iters=3, runs=2, fixed=True, reset=True)
        add(kind=kind, strategies=(None, None, None), n=2, d=1, iters=3 if kind in kinds[::2] else 2, runs=2, fixed=True)
        for j in range(3):
            names = [None] * 3
            names[j] = "random"
            add(kind=kind, strategies=tuple(names), n=2, d=1, iters=3, fixed=True)
        if kind != "global":
            add(kind=kind, strategies=MIX[0], n=2, d=1, iters=4, fixed=True, static=True) if "star" not in kind else None
    add(kind="general:random", strategies=MIX[0], n=2, d=1, iters=3, runs=2, k=1, fixed=True)
    add(kind="general:vonneumann", strategies=MIX[1], n=3, d=1, iters=2, runs=2, fixed=True)
    add(kind="general:pyramid", strategies=MIX[2], n=2, d=2, iters=3, runs=2, fixed=True)
    for s in STRATEGIES_O:
        for j in range(3):
            names = [None] * 3
            names[j] = s
            add(kind=kinds[j], strategies=tuple(names), n=2, d=1, iters=2)
    for kind in kinds:
        add(kind=kind, strategies=MIX[0], n=2, d=1, iters=2)
        add(kind=kind, strategies=(None, None, None), n=2, d=1, iters=3)
    if tier == "thorough":
        for kind in kinds:
            for names in itertools.product((None,) + STRATEGIES_O[:3], repeat=3):
                add(kind=kind, strategies=names, n=2, d=1, iters=3)
                add(kind=kind, strategies=names, n=2, d=1, iters=6, fixed=True)
            add(kind=kind, strategies=MIX[0], n=3, d=1, iters=4)
            add(kind=kind, strategies=MIX[2], n=2, d=2, iters=4)
            add(kind=kind, strategies=MIX[2], n=2, d=1, iters=8)
    return T
