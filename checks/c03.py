"""C03: every particle follows the best personal best of its own neighbourhood."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.topology.ring.Ring.compute_gbest",
             "pyswarms.backend.topology.von_neumann.VonNeumann.compute_gbest",
             "pyswarms.backend.topology.random.Random.compute_gbest",
             "pyswarms.backend.topology.pyramid.Pyramid.compute_gbest", "pyswarms.single.*.optimize",
             "pyswarms.discrete.binary.BinaryPSO.optimize"]
BOUNDS = {"quick": {"particles": "2..4", "dimensions": "1..2", "k": "1..n", "p": "1, 2", "r": "0..1",
                    "costs": "every order pattern incl. ties and inf", "positions": "all reals incl. coincident",
                    "updates": "1, and 2 for static/dynamic"},
          "thorough": {"particles": "2..5", "dimensions": "1..3", "k": "1..n", "p": "1, 2", "r": "0..2",
                       "updates": "1..3"}}
ASSUMPTIONS = ["cKDTree.query returns any k distinct points none of which is farther than an omitted one",
               "Delaunay returns an arbitrary connected undirected neighbour graph on the points",
               "personal best costs are never nan (C01)"]
OUTSIDE = "real kd-tree and qhull geometry; more particles or dimensions than listed"


def claims(ctx, top, name, s, pc, ppos, pos, cost, n, d, k, tag=""):
    m = ctx.min([pc[i] for i in range(n)])
    ctx.claim("reported cost is the best personal best" + tag, ctx.identical(cost, m))
    if len(shape_of(pos)) == 1:        # one best for all: everyone is a neighbour
        ctx.claim("neighbourhood best is a neighbour's best" + tag, any_of(
            ctx, [ctx.and_(pc[i] == m, ctx.identical(pos, ppos[i])) for i in range(n)]))
        return
    ctx.claim("one best position per particle" + tag, shape_of(pos) == (n, d))
    nb = nbr_lists(ctx, top, n)
    for i in range(n):
        if k == 1 and name in ("ring", "vonneumann"):
            ctx.claim("with one neighbour a particle follows itself" + tag, ctx.identical(pos[i], ppos[i]))
            continue
        opts = []
        for j in range(n):
            no_better = [ctx.or_(ctx.not_(isin(ctx, l, nb[i])), ctx.not_(pc[l] < pc[j])) for l in range(n) if l != j]
            opts.append(ctx.and_(isin(ctx, j, nb[i]), ctx.identical(pos[i], ppos[j]), no_better))
        ctx.claim("neighbourhood best is a neighbour's best" + tag, any_of(ctx, opts))


def nbest(ctx, name, n, d, k=2, p=2, r=1, static=False, steps=1, theory="f"):
    if name == "vonneumann":
        k = 1 if r == 0 else 0
    top = topology(name, static)
    s = swarm(ctx, n, d)
    for t in range(steps):
        pc = ctx.array([ctx.number("pcost", theory, nonan=True) for _ in range(n)], "f")
        if t:
            s.position, s.pbest_pos = ctx.reals("pos", n, d), ctx.reals("ppos", n, d)
        s.pbest_cost = pc.copy()
        ppos, pos0 = s.pbest_pos.copy(), s.position.copy()
        pos, cost = top.compute_gbest(s, **gbest_kw(name, k, p, r))
        claims(ctx, top, name, s, pc, ppos, pos, cost, n, d, k)
        ctx.claim("swarm is not modified", ctx.and_(
            ctx.identical(s.pbest_pos, ppos), ctx.identical(s.pbest_cost, pc), ctx.identical(s.position, pos0)))


def run(ctx, kind, n, d, iters, k=2, runs=1, reset=False, static=False, verbose=False, theory="f", **feat):
    """the neighbourhood bests a whole run ends with"""
    opt = optimizer(ctx, kind, n, d, k=k, static=static, **features(ctx, kind, n, d, **feat))
    for r in range(runs):
        if r and reset:
            opt.reset()
        obj = Objective(ctx, theory=theory)
        opt.optimize(obj, iters, verbose=verbose)
    s, top = opt.swarm, opt.top
    pc, pp = scalars(s.pbest_cost), rows(s.pbest_pos)
    m = ctx.min(pc)
    ctx.claim("in a run the best cost is the best personal best", ctx.identical(opt.cost_history[-1], m))
    if len(shape_of(s.best_pos)) == 1:
        ctx.claim("in a run the neighbourhood best is a neighbour's best", any_of(
            ctx, [ctx.and_(pc[i] == m, ctx.identical(s.best_pos, pp[i])) for i in range(n)]))
        return
    ctx.claim("in a run there is one best position per particle", shape_of(s.best_pos) == (n, d))
    nb = nbr_lists(ctx, top, n)
    for i in range(n):
        if k == 1 and kind in ("local", "binary", "general:ring"):
            ctx.claim("in a run with one neighbour a particle follows itself", ctx.identical(s.best_pos[i], pp[i]))
            continue
        ctx.claim("in a run the neighbourhood best is a neighbour's best", any_of(ctx, [ctx.and_(
            isin(ctx, j, nb[i]), ctx.identical(s.best_pos[i], pp[j]),
            [ctx.or_(ctx.not_(isin(ctx, l, nb[i])), ctx.not_(pc[l] < pc[j])) for l in range(n) if l != j])
            for j in range(n)]))


HARNESSES = {"run": run, "nbest": nbest}


def tasks(tier):
    T = []

    def add(**kw):
        T.append(Task("nbest", kw, path_s=120))
    for k in (1, 2, 3):
        for p in (1, 2):
            add(name="ring", n=3, d=1, k=k, p=p)
    add(name="ring", n=4, d=2, k=2, p=2)
    add(name="ring", n=4, d=1, k=3, p=1)
    for k in (1, 2):
        add(name="ring", n=3, d=1, k=k, p=1, static=True, steps=2)
        add(name="ring", n=2, d=2, k=k, p=2, static=False, steps=2)
    add(name="vonneumann", n=3, d=1, p=2, r=1)
    add(name="vonneumann", n=3, d=2, p=1, r=0)
    add(name="random", n=3, d=1, k=1)
    add(name="random", n=3, d=2, k=2)
    add(name="random", n=3, d=1, k=1, static=True, steps=2)
    add(name="pyramid", n=3, d=2)
    add(name="pyramid", n=2, d=2)
    add(name="pyramid", n=3, d=2, static=True, steps=2)
    for kind in ("local", "binary", "general:ring", "general:random", "general:vonneumann", "general:pyramid"):
        n = 3 if kind in ("general:vonneumann",) else 2
        for f in (dict(iters=2), dict(iters=1, runs=2), dict(iters=1, runs=2, reset=True), dict(iters=2, k=1),
                  dict(iters=1, n=3), dict(iters=2, static=True), dict(iters=2, ftol=1, theory="r", verbose=True),
                  dict(iters=2, bh="nearest", init=True, k=1), dict(iters=2, oh="lin_variation", clamp=(-0.5, 0.25))):
            if kind == "binary" and "static" in f or kind == "general:vonneumann" and f.get("iters") == 2 and len(f) > 1:
                continue
            kw = dict(dict(kind=kind, n=n, d=1), **f)
            if kind == "general:random" and kw["n"] == 2:
                kw["k"] = 1
            T.append(Task("run", kw, timeout=600, path_s=200))
    if tier == "thorough":
        for st in (False, True):
            add(name="ring", n=3, d=2, k=2, p=2, static=st, steps=3)
            add(name="ring", n=3, d=1, k=1, p=2, static=st, steps=3)
            add(name="random", n=4, d=1, k=2, static=st)
            add(name="random", n=3, d=1, k=1, static=st, steps=2)
            add(name="pyramid", n=4, d=2, static=st)
            add(name="pyramid", n=4, d=3, static=st)
            add(name="pyramid", n=3, d=2, static=st, steps=2)
        add(name="random", n=4, d=1, k=1)
        add(name="ring", n=5, d=1, k=3, p=1)
        add(name="ring", n=5, d=1, k=5, p=1, theory="r")
        add(name="vonneumann", n=5, d=1, p=1, r=2, theory="r")
        add(name="vonneumann", n=5, d=2, p=2, r=1, theory="r")
        for t in T:
            t.timeout = 700
    return T
