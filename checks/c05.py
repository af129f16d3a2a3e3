"""C05: the new velocity is inertia plus randomly weighted pulls towards the two bests."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.operators.compute_velocity",
             "pyswarms.backend.topology.*.compute_velocity",
             "pyswarms.single/discrete optimize loops"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "everything else": "all reals"},
          "thorough": {"particles": "1..4", "dimensions": "1..3", "iterations": "2..3"}}
ASSUMPTIONS = []
OUTSIDE = "rounding of the arithmetic; more particles or dimensions than listed"


def fits(ctx, draws, new, w, c1, c2, v, x, pb, gb):
    """some two different draws a, b of [0, 1) explain the new value"""
    alts = []
    for i, a in enumerate(draws):
        for j, b in enumerate(draws):
            if i != j:
                alts.append(ctx.same(new, attraction(ctx, w, c1, c2, v, x, pb, gb, a, b)))
    return ctx.or_(alts)


def rule(ctx, via, n, d, apart=False):
    from pyswarms.backend.operators import compute_velocity
    w, c1, c2 = ctx.real("w"), ctx.real("c1"), ctx.real("c2")
    opts = {"w": w, "c1": c1, "c2": c2}
    s = swarm(ctx, n, d, options=opts)
    star = via in ("operator1", "star")
    s.best_pos = ctx.reals("gpos", d) if star else ctx.reals("gpos", n, d)
    s.pbest_cost = ctx.array([1.0] * n, "f")
    before = [snapshot(s.position), snapshot(s.velocity), snapshot(s.pbest_pos), scalars(s.best_pos)]
    since = len(ENV.draws)
    if via.startswith("operator"):
        new = compute_velocity(s, None, velocity_handler("unmodified"))
    else:
        new = topology(via).compute_velocity(s)
    draws = unit_draws(since)
    ctx.claim("shape", shape_of(new) == (n, d))
    x, v, pb = rows(s.position), rows(s.velocity), rows(s.pbest_pos)
    N = rows(new)
    for i in range(n):
        for j in range(d):
            gb = s.best_pos[j] if star else s.best_pos[i, j]
            ctx.claim("inertia, own best and neighbourhood best add up",
                      fits(ctx, draws, N[i][j], w, c1, c2, v[i][j], x[i][j], pb[i][j], gb))
    if apart:
        generic(ctx, scalars(s.position) + scalars(s.pbest_pos) + scalars(s.best_pos) + [w, c1, c2])
        generic(ctx, draws)
        ctx.claim("every component has two random numbers of its own", matching([
            [(a, b) for a, b in itertools.permutations(range(len(draws)), 2) if certainly(ctx, ctx.same(N[i][j], attraction(
                ctx, w, c1, c2, v[i][j], x[i][j], pb[i][j], s.best_pos[j] if star else s.best_pos[i, j], draws[a], draws[b])))]
            for i in range(n) for j in range(d)]))
    ctx.claim("the swarm is left alone", ctx.and_(
        ctx.identical(s.position, before[0]), ctx.identical(s.velocity, before[1]),
        ctx.identical(s.pbest_pos, before[2]), ctx.identical(scalars(s.best_pos), before[3])))


def run(ctx, kind, n, d, iters, k=2, again=False, verbose=False, **feat):
    """the rule links consecutive states of a whole optimisation"""
    opt = optimizer(ctx, kind, n, d, k=k, **features(ctx, kind, n, d, **feat))
    if again:
        opt.optimize(Objective(ctx, theory="r", name="earlier"), 1, verbose=False)
        opt.reset() if again == "reset" else None
    at = len(opt.pos_history)
    obj = Objective(ctx, theory="r")
    opt.optimize(obj, iters, verbose=verbose)
    draws = unit_draws()
    X, V = [rows(p) for p in opt.pos_history[at:]], [rows(v) for v in opt.velocity_history[at:]]
    mem = [list(r) for r in X[0]]
    memc = list(obj.calls[0][1])
    star = kind in ("global", "general:star")
    for t in range(iters - 1):
        if t:
            for i in range(n):
                c = obj.calls[t][1][i]
                b = c < memc[i]
                mem[i] = [ctx.ite(b, u, q) for u, q in zip(X[t][i], mem[i])]
                memc[i] = ctx.ite(b, c, memc[i])
        best = ctx.min(memc)
        for i in range(n):
            for j in range(d):
                alts = []
                for l in range(n):
                    f = fits(ctx, draws, V[t + 1][i][j], OPTS["w"], OPTS["c1"], OPTS["c2"], V[t][i][j], X[t][i][j],
                             mem[i][j], mem[l][j])
                    alts.append(ctx.and_(memc[l] == best, f) if star else f)
                ctx.claim("inertia, own best and a best of the neighbourhood add up, iteration after iteration",
                          ctx.or_(alts))


HARNESSES = {"rule": rule, "run": run}


def tasks(tier):
    T = [Task("rule", dict(via=v, n=n, d=d)) for v, n, d in (
        ("operator1", 1, 1), ("operator1", 2, 2), ("operator2", 2, 2), ("star", 2, 1), ("ring", 2, 2),
        ("vonneumann", 2, 1), ("random", 2, 2), ("pyramid", 2, 1), ("operator2", 3, 1))]
    T += [Task("rule", dict(via=v, n=n, d=d, apart=True)) for v, n, d in (
        ("operator1", 1, 2), ("operator1", 2, 1), ("operator2", 2, 2), ("star", 2, 2), ("ring", 2, 2),
        ("vonneumann", 2, 1), ("random", 2, 1), ("pyramid", 2, 2), ("operator2", 3, 1))]
    T.append(Task("run", dict(kind="general:vonneumann", n=3, d=1, iters=2)))
    for kind in ("global", "local", "general:star", "general:ring", "binary"):
        T.append(Task("run", dict(kind=kind, n=2, d=1, iters=2)))
    T.append(Task("run", dict(kind="general:random", n=3, d=1, iters=2)))
    T.append(Task("run", dict(kind="general:pyramid", n=2, d=2, iters=2)))
    for kind in KINDS:
        few = 1 if kind in ("global", "general:star") else 2
        for f in (dict(bh="nearest"), dict(bh="periodic", init=True), dict(again="again"), dict(again="reset"),
                  dict(ftol=1, verbose=True), dict(init=True, vh="unmodified")):
            if not ("bh" in f and kind == "binary"):
                T.append(Task("run", dict(kind=kind, n=few, d=1, iters=2, k=1, **f), timeout=600, path_s=200))
    if tier == "thorough":
        T += [Task("rule", dict(via=v, n=n, d=d), timeout=700) for v, n, d in (
            ("operator1", 3, 3), ("operator2", 3, 2), ("operator2", 4, 2), ("ring", 3, 2), ("random", 3, 2),
            ("pyramid", 3, 2), ("vonneumann", 3, 2))]
        T += [Task("run", dict(kind=k, n=2, d=1, iters=3), timeout=700, path_s=200) for k in (
            "global", "local", "general:star", "general:ring", "binary")]
        T += [Task("run", dict(kind=k, n=2, d=2, iters=2), timeout=700, path_s=200) for k in (
            "global", "local")]
    return T
