"""C22: all randomness comes from numpy's global generator, one fresh number for every use."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.operators.compute_velocity", "pyswarms.backend.generators.*",
             "pyswarms.backend.handlers.BoundaryHandler.random", "pyswarms.backend.handlers.OptionsHandler.random",
             "pyswarms.backend.topology.random.Random", "pyswarms.single.*.optimize", "pyswarms.discrete.binary.BinaryPSO",
             "pyswarms.utils.search.random_search.RandomSearch"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "iterations": "1..3", "costs": "all IEEE doubles"},
          "thorough": {"particles": "1..3", "dimensions": "1..3", "iterations": "1..4"}}
ASSUMPTIONS = ["numpy.random.seed restarts numpy's global generator and nothing else",
               "independence is judged where positions, bests and draws are pairwise different"]
OUTSIDE = "the quality of numpy's generator; more particles or dimensions than listed"
C = {"w": 0.75, "c1": 0.5, "c2": 1.5}


def reproducible(ctx, kind, n, d, iters, k=2, static=False, runs=1, reset=False, real=False, **feat):
    """the same seed gives the same run"""
    kw = features(ctx, kind, n, d, **feat)
    real = real or bool(feat.get("ftol"))
    x0 = snapshot(kw["init_pos"]) if "init_pos" in kw else None
    out = []
    for _ in range(2):
        reseed()
        if x0:
            kw["init_pos"] = ctx.array([v for r in x0 for v in r], "i" if kind == "binary" else "f", (n, d))
        opt = optimizer(ctx, kind, n, d, k=k, static=static, **kw)
        obj = Objective(ctx, pure=True, theory="r" if real else "f")
        for r in range(runs):
            if r and reset:
                opt.reset()
            res = opt.optimize(obj, iters, verbose=False)
        out.append(Trace(ctx, opt, obj, res))
    same_trace(ctx, *out)


def pulls(ctx, via, n, d):
    """the two pulls of every component have their own two numbers"""
    from pyswarms.backend.operators import compute_velocity
    s = swarm(ctx, n, d, options=dict(C))
    star = via in ("operator", "star")
    s.best_pos = ctx.reals("gpos", d) if star else ctx.reals("gpos", n, d)
    s.pbest_cost = ctx.array([1.0] * n, "f")
    since = len(ENV.draws)
    if via == "operator":
        new = compute_velocity(s, None, velocity_handler("unmodified"))
    else:
        new = topology(via).compute_velocity(s)
    u = unit_draws(since)
    generic(ctx, scalars(s.position) + scalars(s.pbest_pos) + scalars(s.best_pos))
    generic(ctx, u)
    x, v, pb, N = rows(s.position), rows(s.velocity), rows(s.pbest_pos), rows(new)
    sets = []
    for i in range(n):
        for j in range(d):
            gb = s.best_pos[j] if star else s.best_pos[i, j]
            sets.append([(a, b) for a, b in itertools.permutations(range(len(u)), 2) if certainly(ctx, ctx.same(
                N[i][j], attraction(ctx, C["w"], C["c1"], C["c2"], v[i][j], x[i][j], pb[i][j], gb, u[a], u[b])))])
    ctx.claim("every component has its own two random numbers", matching(sets))


def over_time(ctx, kind, iters, n=1, k=1):
    """no number is used twice in a run, the initial swarm included"""
    opt = optimizer(ctx, kind, n, 1, k=k, options=dict(C))
    obj = Objective(ctx, script=[[float(1 + i + 10 * t) for i in range(n)] for t in range(iters)])
    opt.optimize(obj, iters, verbose=False)
    u = unit_draws()
    X, V = [rows(p) for p in opt.pos_history], [rows(p) for p in opt.velocity_history]
    generic(ctx, u)
    generic(ctx, [r[0] for p in X for r in p])
    sets = []
    for i in range(n):
        sets.append([(a,) for a in range(len(u)) if certainly(ctx, ctx.same(X[0][i][0], u[a]))])
        sets.append([(a,) for a in range(len(u)) if certainly(ctx, ctx.same(V[0][i][0], u[a]))])
    for t in range(iters - 1):
        if k == 1 and t == 0:       # everyone is at its own best: no pull
            continue
        for i in range(1, n):       # particle 0 is the best one, the others keep their first position as own best
            gb = X[0][i if k == 1 else 0][0]
            sets.append([(a, b) for a, b in itertools.permutations(range(len(u)), 2) if certainly(ctx, ctx.same(
                V[t + 1][i][0], attraction(ctx, C["w"], C["c1"], C["c2"], V[t][i][0], X[t][i][0], X[0][i][0],
                                           gb, u[a], u[b])))])
    ctx.claim("no random number is used twice", matching(sets))


def spread(ctx, what, n, d):
    """independent numbers for every component of a generated array"""
    from pyswarms.backend import generators as g
    since = len(ENV.draws)
    if what == "positions":
        R = rows(g.generate_swarm(n, d))
        at = lambda u, j: u
    elif what == "bounded":
        lb, ub = box(ctx, d)
        R = rows(g.generate_swarm(n, d, bounds=(lb, ub)))
        at = lambda u, j: lb[j] + (ub[j] - lb[j]) * u
    elif what == "velocities":
        a, b = ctx.real("vmin", lo=-4, hi=4), ctx.real("vmax", lo=-4, hi=4)
        ctx.assume(a + 0.125 <= b)
        R = rows(g.generate_velocity(n, d, clamp=(a, b)))
        at = lambda u, j: a + (b - a) * u
    elif what == "handled":
        lb, ub = box(ctx, d)
        x = ctx.reals("pos", n, d)
        for r in rows(x):
            for j in range(d):
                ctx.assume(ctx.or_(r[j] < lb[j], r[j] > ub[j]))
        R = rows(boundary_handler("random")(x, (lb, ub)))
        at = lambda u, j: lb[j] + (ub[j] - lb[j]) * u
    u = unit_draws(since)
    generic(ctx, u)
    sets = [[(a,) for a in range(len(u)) if certainly(ctx, ctx.same(R[i][j], at(u[a], j)))]
            for i in range(n) for j in range(d)]
    ctx.claim("every component has its own random number", matching(sets))


def bits(ctx, n, d):
    """generated binary positions: independent bits, both values possible"""
    from pyswarms.backend.generators import generate_discrete_swarm
    since = len(ENV.draws)
    R = rows(generate_discrete_swarm(n, d, binary=True))
    u = [v for nm, st, v in ENV.draws[since:]]
    if any("int" not in st and st not in ("rchoice",) for nm, st, v in ENV.draws[since:]):
        return          # bits made from real numbers: judged by C21
    sets = [[(a,) for a in range(len(u)) if certainly(ctx, ctx.same(R[i][j], u[a]))] for i in range(n) for j in range(d)]
    if ctx.sym:
        ctx.claim("every bit has its own random number", matching(sets))


def search(ctx, n_sel):
    """random searches: the same seed gives the same settings"""
    from pyswarms.single import GlobalBestPSO
    from pyswarms.utils.search import RandomSearch
    out = []
    for _ in range(2):
        reseed()
        obj = Objective(ctx, pure=True)
        rs = RandomSearch(GlobalBestPSO, n_particles=1, dimensions=1, options={"c1": [1, 5], "c2": [6, 10], "w": [2, 4], "k": [1, 3], "p": 1},
                          objective_func=obj, iters=1, n_selection_iters=n_sel)
        out.append(rs.generate_grid())
    ctx.claim("the same seed gives the same settings", ctx.and_(
        [sorted(a) == sorted(b) and all(certainly(ctx, ctx.same(a[k], b[k])) for k in a) for a, b in zip(*out)]))


HARNESSES = {"reproducible": reproducible, "pulls": pulls, "over_time": over_time, "spread": spread, "bits": bits,
             "search": search}


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=600, path_s=200, allow_empty=h == "bits"))
    for kind in ("global", "local", "binary", "general:star", "general:ring"):
        add("reproducible", kind=kind, n=2, d=1, iters=2)
        add("reproducible", kind=kind, n=2, d=2, iters=1)
    for kind in KINDS:
        few = 1 if kind in ("global", "general:star") else 2
        base = dict(kind=kind, n=few, d=1, k=1)
        if kind != "binary":
            for oh in ({"w": "random"}, {"c1": "random"}, {"c2": "random", "w": "lin_variation"}):
                add("reproducible", iters=2, oh=oh, **base)
            for b in STRATEGIES_B:
                add("reproducible", iters=2, bh=b, init=few == 2, **base)
            for v in STRATEGIES_V[1:]:
                add("reproducible", iters=2, bh="random", vh=v, **dict(base, kind="global", n=1))
        add("reproducible", iters=3, ftol=1, **base)
        add("reproducible", iters=1, runs=2, **base)
        add("reproducible", iters=2 if few == 1 else 1, runs=2, reset=True, **base)
        add("reproducible", iters=2, clamp=(-0.5, 0.25), **base)
        add("reproducible", iters=2, init=True, vh="adjust", **base)
    add("reproducible", kind="general:random", n=3, d=1, iters=2)
    add("reproducible", kind="general:random", n=3, d=1, iters=2, static=True)
    add("reproducible", kind="general:pyramid", n=2, d=2, iters=2)
    add("reproducible", kind="global", n=1, d=1, iters=2, bh="random")
    add("reproducible", kind="global", n=1, d=1, iters=2, bh="periodic")
    add("reproducible", kind="global", n=1, d=1, iters=2, oh="random")
    for via, n, d in (("operator", 1, 1), ("operator", 2, 2), ("operator", 3, 1), ("star", 1, 2), ("ring", 2, 1),
                      ("ring", 2, 2), ("vonneumann", 2, 1), ("random", 2, 1), ("pyramid", 1, 2)):
        add("pulls", via=via, n=n, d=d)
    for kind in ("global", "local", "general:star", "general:ring"):
        star = kind in ("global", "general:star")
        add("over_time", kind=kind, n=2, k=2 if star else 1, iters=3)
    for what in ("positions", "bounded", "velocities", "handled"):
        add("spread", what=what, n=2, d=2)
        add("spread", what=what, n=3, d=1)
        add("spread", what=what, n=1, d=3)
    add("bits", n=2, d=2)
    add("bits", n=3, d=1)
    add("search", n_sel=2)
    if tier == "thorough":
        for kind in ("global", "local", "binary", "general:star", "general:ring"):
            add("reproducible", kind=kind, n=3, d=1, iters=2)
            add("reproducible", kind=kind, n=2, d=1, iters=3)
        add("pulls", via="operator", n=3, d=2)
        add("pulls", via="ring", n=3, d=2)
        add("over_time", kind="global", n=2, k=2, iters=4)
        add("over_time", kind="global", n=3, k=2, iters=3)
        add("spread", what="handled", n=3, d=2)
    return T
