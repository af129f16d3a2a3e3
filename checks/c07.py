"""C07: what each velocity strategy does to velocities of particles outside the bounds."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.handlers.VelocityHandler.unmodified/adjust/invert/zero/__call__",
             "pyswarms.backend.operators.compute_velocity"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "velocities, positions, bounds, clamps, z": "all reals",
                    "calls": "1..3", "iterations of runs": "2..3"},
          "thorough": {"particles": "1..3", "dimensions": "1..3", "calls": "1..4"}}
ASSUMPTIONS = ["lower bounds are below upper bounds; clamps are ordered"]
OUTSIDE = "rounding; more particles or dimensions than listed; the zero strategy with a clamp that excludes 0"


def limited(ctx, row, clamp):
    return [clip(ctx, v, *clamp) for v in row] if clamp else list(row)


def strategy(ctx, name, n, d, clamped=False, calls=1, z=None, aslist=False, primed=False):
    vh = velocity_handler(name)
    lb, ub = box(ctx, d)
    bounds = (scalars(lb), scalars(ub)) if aslist else (lb, ub)
    clamp = None
    if clamped:
        clamp = (ctx.real("cmin"), ctx.real("cmax"))
        ctx.assume(clamp[0] <= clamp[1])
        if name == "zero":
            ctx.assume(ctx.and_(clamp[0] <= 0, clamp[1] >= 0))
    prev = None
    if primed:
        m = ctx.reals("mem", n, d)
        prev = snapshot(m)
        vh.memory = m
    kw = {}
    factor = 0.5
    if z is not None:
        factor = kw["z"] = ctx.real("z")
    for _ in range(calls):
        v, x = ctx.reals("vel", n, d), ctx.reals("pos", n, d)
        V, X = snapshot(v), snapshot(x)
        r = vh(v, clamp, position=x, bounds=bounds, **kw)
        ctx.claim("shape", shape_of(r) == (n, d))
        R = rows(r)
        for i in range(n):
            out = row_outside(ctx, X[i], scalars(lb), scalars(ub))
            if name == "unmodified":
                want = V[i]
            elif name == "adjust":
                want = V[i] if prev is None else [a - b for a, b in zip(X[i], prev[i])]
            elif name == "invert":
                want = [ctx.ite(out, -factor * a, a) for a in V[i]]
            else:
                want = [ctx.ite(out, 0.0, a) for a in V[i]]
            ctx.claim("%s strategy" % name, ctx.same(R[i], limited(ctx, want, clamp)))
        ctx.claim("positions and bounds are left alone", ctx.and_(ctx.identical(x, X)))
        prev = X
        ctx.observe("v", r)


def chained(ctx, name, n, d):
    """the operator hands the attraction rule's result to the strategy"""
    from pyswarms.backend.operators import compute_velocity
    s = swarm(ctx, n, d, options=dict(OPTS, w=ctx.real("w")))
    s.best_pos = ctx.reals("gpos", d)
    lb, ub = box(ctx, d)
    X, V, P = snapshot(s.position), snapshot(s.velocity), snapshot(s.pbest_pos)
    r = rows(compute_velocity(s, None, velocity_handler(name), (lb, ub)))
    draws = unit_draws()
    for i in range(n):
        out = row_outside(ctx, X[i], scalars(lb), scalars(ub))
        for j in range(d):
            alts = []
            for a in draws:
                for b in draws:
                    if a is not b:
                        t = attraction(ctx, s.options["w"], OPTS["c1"], OPTS["c2"], V[i][j], X[i][j], P[i][j],
                                       s.best_pos[j], a, b)
                        alts.append(ctx.same(r[i][j], t if name in ("unmodified", "adjust") else
                                             ctx.ite(out, 0.0 if name == "zero" else -0.5 * t, t)))
            ctx.claim("%s strategy applies to the computed velocity" % name, ctx.or_(alts))


def run(ctx, kind, n, d, iters, again=False, verbose=False, **feat):
    """every iteration of a whole optimisation"""
    name, clamp = feat["vh"], feat.get("clamp")
    opt = optimizer(ctx, kind, n, d, k=1, **features(ctx, kind, n, d, **feat))
    if again:
        opt.optimize(Objective(ctx, theory="r", name="earlier"), 1, verbose=False)
        opt.reset() if again == "reset" else None
    at = len(opt.pos_history)
    obj = Objective(ctx, theory="r")
    opt.optimize(obj, iters, verbose=verbose)
    X, V = [rows(p) for p in opt.pos_history[at:]], [rows(v) for v in opt.velocity_history[at:]]
    if name == "adjust":
        for t in range(1, len(X) - 1):
            for i in range(n):
                ctx.claim("in a run the adjusted velocity is the last step", ctx.same(
                    V[t + 1][i], limited(ctx, [a - b for a, b in zip(X[t][i], X[t - 1][i])], clamp)))
        return
    draws = unit_draws()
    for t in range(1 if len(X) > 1 else 0):      # later iterations: C05
        for i in range(n):
            out = row_outside(ctx, X[t][i], [-1.0] * d, [2.0] * d) if feat.get("bh") else False
            for j in range(d):
                alts = []
                for l in range(n):
                    for a, b in itertools.permutations(draws, 2):
                        w = attraction(ctx, OPTS["w"], OPTS["c1"], OPTS["c2"], V[t][i][j], X[t][i][j], X[t][i][j],
                                       X[t][l][j], a, b)
                        if name != "unmodified":
                            w = ctx.ite(ctx.and_(out), 0.0 if name == "zero" else -0.5 * w, w)
                        alts.append(ctx.same(V[t + 1][i][j], limited(ctx, [w], clamp)[0]))
                ctx.claim("in a run the %s strategy gets the computed velocity" % name, ctx.or_(alts))


def via_topology(ctx, top, name, n, d, clamped=False):
    """the topologies hand clamp, strategy and bounds on"""
    s = swarm(ctx, n, d, options=dict(OPTS))
    s.best_pos = ctx.reals("gpos", d) if top == "star" else ctx.reals("gpos", n, d)
    lb, ub = box(ctx, d)
    clamp = (-0.5, 0.25) if clamped else None
    X, V, P, B = (snapshot(a) for a in (s.position, s.velocity, s.pbest_pos, s.best_pos.reshape(-1, d)))
    R = rows(topology(top).compute_velocity(s, clamp, velocity_handler(name), (lb, ub)))
    draws = unit_draws()
    for i in range(n):
        out = row_outside(ctx, X[i], scalars(lb), scalars(ub))
        for j in range(d):
            alts = []
            for a, b in itertools.permutations(draws, 2):
                t = attraction(ctx, OPTS["w"], OPTS["c1"], OPTS["c2"], V[i][j], X[i][j], P[i][j],
                               B[0 if top == "star" else i][j], a, b)
                t = t if name in ("unmodified", "adjust") else ctx.ite(out, 0.0 if name == "zero" else -0.5 * t, t)
                alts.append(ctx.same(R[i][j], limited(ctx, [t], clamp)[0]))
            ctx.claim("%s strategy applies in the %s topology" % (name, top), ctx.or_(alts))
    ctx.claim("positions and bounds are left alone", ctx.identical(s.position, X))


HARNESSES = {"strategy": strategy, "chained": chained, "run": run, "via_topology": via_topology}


def tasks(tier):
    T = []
    for s in STRATEGIES_V:
        T.append(Task("strategy", dict(name=s, n=2, d=2, calls=1)))
        T.append(Task("strategy", dict(name=s, n=2, d=1, clamped=True, calls=2)))
        T.append(Task("strategy", dict(name=s, n=3, d=1, calls=1, primed=True)))
        T.append(Task("strategy", dict(name=s, n=1, d=2, calls=2, aslist=True)))
        T.append(Task("chained", dict(name=s, n=1, d=2)))
    T.append(Task("strategy", dict(name="invert", n=2, d=2, calls=1, z=1)))
    T.append(Task("strategy", dict(name="adjust", n=2, d=2, calls=3)))
    for top in ("star", "ring", "vonneumann", "random", "pyramid"):
        for s in STRATEGIES_V:
            T.append(Task("via_topology", dict(top=top, name=s, n=2, d=1, clamped=s in ("invert", "unmodified"))))
    for kind in KINDS:
        few = 1 if kind == "binary" else 2
        for f in [dict(vh="unmodified"), dict(vh="adjust", iters=3), dict(vh="adjust", iters=3, again="again"),
                  dict(vh="unmodified", clamp=(-0.5, 0.25)), dict(vh="adjust", iters=3, clamp=(-0.5, 0.25))] + ([
                      dict(vh="zero", bh="nearest"), dict(vh="invert", bh="nearest", again="reset"),
                      dict(vh="invert", bh="nearest", clamp=(-0.5, 0.25), init=True, verbose=True)]
                      if kind != "binary" else []):
            kw = dict(dict(kind=kind, n=few, d=1, iters=2), **f)
            if kw["iters"] == 3 or "again" in kw:
                kw["n"] = 1
            T.append(Task("run", kw, timeout=600, path_s=200))
    if tier == "thorough":
        for s in STRATEGIES_V:
            T.append(Task("strategy", dict(name=s, n=3, d=2, calls=3, clamped=True), timeout=700, path_s=200))
            T.append(Task("strategy", dict(name=s, n=2, d=3, calls=2), timeout=700, path_s=200))
            T.append(Task("chained", dict(name=s, n=2, d=2), timeout=700, path_s=200))
    return T
