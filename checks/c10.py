"""C10: each boundary strategy puts particles where its documentation says."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.handlers.BoundaryHandler.nearest/random/shrink/reflective/intermediate/periodic/__call__",
             "pyswarms.backend.operators.compute_position"]
BOUNDS = {"quick": {"particles": "1..2", "dimensions": "1..2", "bounds": "all reals (periodic, reflective: 4 concrete "
                    "boxes and positions up to 5 widths away)", "calls": "1..2"},
          "thorough": {"particles": "1..3", "dimensions": "1..3", "calls": "1..3"}}
ASSUMPTIONS = ["lower bounds are below upper bounds", "the previous positions (memory) are within the bounds"]
OUTSIDE = "rounding; the first call of a fresh shrink/intermediate handler outside an optimizer (it has no previous " \
          "position); more particles or dimensions than listed"
BOXES = [(-1.0, 2.0), (0.0, 0.5), (3.0, 10.0), (-9.0, -8.0)]


def reflected(ctx, x, lo, hi, got, far):
    s = hi - lo
    cs = []
    for k in range(-far - 1, far + 1):
        a, b = lo + k * s, lo + (k + 1) * s
        want = x - k * s if k % 2 == 0 else 2 * lo + (k + 1) * s - x
        cs.append(ctx.implies(ctx.and_(x >= a, x <= b), ctx.same(got, want)))
    return ctx.and_(cs)


def tiled(ctx, x, lo, hi, got, far):
    s = hi - lo
    cs = [ctx.implies(ctx.and_(x >= lo, x <= hi), ctx.same(got, x))]
    for m in range(far + 1):
        u = lo - x
        cs.append(ctx.implies(ctx.and_(u > 0, u >= m * s, u < (m + 1) * s), ctx.same(got, hi - (u - m * s))))
        u = x - hi
        cs.append(ctx.implies(ctx.and_(u > 0, u >= m * s, u < (m + 1) * s), ctx.same(got, lo + (u - m * s))))
    return ctx.and_(cs)


def wrapped(ctx, strategy, n, d, family, far, aslist=False):
    lo, hi = BOXES[family]
    lb, ub = ctx.array([lo] * d, "f"), ctx.array([hi] * d, "f")
    x = ctx.reals("pos", n, d, lo=lo - far * (hi - lo), hi=hi + far * (hi - lo))
    X = snapshot(x)
    r = boundary_handler(strategy)(x, ([lo] * d, [hi] * d) if aslist else (lb, ub))
    f = reflected if strategy == "reflective" else tiled
    for i, row in enumerate(rows(r)):
        for j in range(d):
            ctx.claim("%s strategy" % strategy, f(ctx, X[i][j], lo, hi, row[j], far))
    ctx.observe("r", r)


def rule(ctx, strategy, x, m, L, H, got_row, draws):
    """what the strategy makes of the position x of one particle (m: where it was before)"""
    out = row_outside(ctx, x, L, H)
    ok = []
    sigma = None
    if strategy == "shrink":
        for j in range(len(x)):
            v = x[j] - m[j]
            sj = ctx.ite(x[j] < L[j], quotient(ctx, L[j] - m[j], v),
                         ctx.ite(x[j] > H[j], quotient(ctx, H[j] - m[j], v), 1.0))
            sigma = sj if sigma is None else ctx.ite(sj < sigma, sj, sigma)
    for j in range(len(x)):
        x_, lo, hi, got = x[j], L[j], H[j], got_row[j]
        if strategy == "nearest":
            ok.append(ctx.same(got, ctx.ite(x_ < lo, lo, ctx.ite(x_ > hi, hi, x_))))
        elif strategy == "random":
            ok.append(ctx.implies(ctx.not_(out), ctx.same(got, x_)))
            ok.append(ctx.implies(out, any_of(ctx, [ctx.same(got, lo + (hi - lo) * u) for u in draws])))
        elif strategy == "intermediate":
            ok.append(ctx.same(got, ctx.ite(x_ < lo, 0.5 * (m[j] + lo),
                                            ctx.ite(x_ > hi, 0.5 * (m[j] + hi), x_))))
        else:
            ok.append(ctx.same(got, ctx.ite(out, m[j] + sigma * (x_ - m[j]), x_)))
    return ok


def placed(ctx, strategy, n, d, calls=1, aslist=False, operator=False):
    """operator: through compute_position, whose swarm then moves on from there"""
    from pyswarms.backend.operators import compute_position
    lb, ub = box(ctx, d)
    L, H = scalars(lb), scalars(ub)
    bh = boundary_handler(strategy)
    M = None
    if strategy in ("shrink", "intermediate"):
        m = ctx.reals("mem", n, d)
        M = snapshot(m)
        for r in M:
            for j in range(d):
                ctx.assume(ctx.and_(r[j] >= L[j], r[j] <= H[j]))
        bh.memory = m
    if operator:
        s = swarm(ctx, n, d, **({} if M is None else {"position": m}))
    for _ in range(calls):
        since = len(ENV.draws)
        bounds = (list(L), list(H)) if aslist else (lb, ub)
        if operator:
            s.velocity = ctx.reals("vel", n, d)
            X = [[a + b for a, b in zip(p, v)] for p, v in zip(rows(s.position), rows(s.velocity))]
            res = s.position = compute_position(s, bounds, bh)
        else:
            x = ctx.reals("pos", n, d)
            X = snapshot(x)
            res = bh(x, bounds)
        R = rows(res)
        draws = unit_draws(since)
        for i in range(n):
            ok = rule(ctx, strategy, X[i], M and M[i], L, H, R[i], draws)
            ctx.claim("%s strategy" % strategy, ctx.and_(ok))
        if M is not None:
            M = R
        ctx.observe("r", res)



def run(ctx, strategy, kind, n, iters, k=1, d=1, again=False, vh=None):
    """whole runs: consecutive recorded positions"""
    lo, hi = -1.0, 2.0
    opt = optimizer(ctx, kind, n, d, k=k, **features(ctx, kind, n, d, bh=strategy, init=True, vh=vh,
                                                     clamp=(-3.0, 3.0) if strategy in ("reflective", "periodic") else None))
    for r in range(2 if again else 1):
        if r and again == "reset":
            opt.reset()
        at = len(opt.pos_history)
        obj = Objective(ctx, script=[[float(1 + i + 7 * t) for i in range(n)] for t in range(iters)])
        opt.optimize(obj, iters, verbose=False)
    X = [rows(p) for p in opt.pos_history[at:]]
    V = [rows(p) for p in opt.velocity_history[at:]]
    draws = unit_draws()
    for t in range(iters - 1):
        for i in range(n):
            x = [a + b for a, b in zip(X[t][i], V[t + 1][i])]
            if strategy in ("reflective", "periodic"):
                f = reflected if strategy == "reflective" else tiled
                ok = [f(ctx, u, lo, hi, g, 2) for u, g in zip(x, X[t + 1][i])]
            else:
                ok = rule(ctx, strategy, x, X[t][i], [lo] * d, [hi] * d, X[t + 1][i], draws)
            ctx.claim("%s strategy during a run" % strategy, ctx.and_(ok))


def quotient(ctx, a, b):
    """a / b, meaningful only where b != 0"""
    if not ctx.sym:
        return a / b if b != 0 else 0.0
    return SymNum(core.to_real(a) / core.to_real(b), "r")


HARNESSES = {"wrapped": wrapped, "placed": placed, "run": run}


def tasks(tier):
    T = []
    for s in ("reflective", "periodic"):
        for f in range(4):
            T.append(Task("wrapped", dict(strategy=s, n=1, d=1, family=f, far=5)))
        T.append(Task("wrapped", dict(strategy=s, n=2, d=1, family=0, far=2)))
        T.append(Task("wrapped", dict(strategy=s, n=1, d=2, family=0, far=2, aslist=True)))
    for s in ("nearest", "random", "shrink", "intermediate"):
        T.append(Task("placed", dict(strategy=s, n=2, d=1)))
        T.append(Task("placed", dict(strategy=s, n=1, d=2)))
        T.append(Task("placed", dict(strategy=s, n=1, d=1, calls=2, aslist=True)))
        T.append(Task("placed", dict(strategy=s, n=1, d=1, calls=3, operator=True), timeout=600, path_s=200))
        T.append(Task("placed", dict(strategy=s, n=2, d=1, calls=1, operator=True), timeout=600, path_s=200))
        T.append(Task("placed", dict(strategy=s, n=1, d=2, calls=2, operator=True), timeout=600, path_s=200))
    for s in STRATEGIES_B:
        for kind in ("global", "local", "general:star", "general:ring"):
            few = 1 if kind in ("global", "general:star") else 2
            T.append(Task("run", dict(strategy=s, kind=kind, n=few, iters=3 if few == 1 else 2), timeout=600, path_s=200))
        T.append(Task("run", dict(strategy=s, kind="general:random", n=2, iters=2), timeout=600, path_s=200))
        T.append(Task("run", dict(strategy=s, kind="general:pyramid", n=2, iters=2), timeout=600, path_s=200))
        T.append(Task("run", dict(strategy=s, kind="global", n=1, iters=2, again="reset"), timeout=600, path_s=200))
        again = dict(kind="local", n=2) if s in ("nearest", "shrink", "intermediate") else dict(kind="global", n=1)
        T.append(Task("run", dict(strategy=s, iters=2, again="again", **again), timeout=600, path_s=200))
        T.append(Task("run", dict(strategy=s, kind="global", n=1, iters=2, vh="invert"), timeout=600, path_s=200))
    if tier == "thorough":
        for s in ("reflective", "periodic"):
            T.append(Task("wrapped", dict(strategy=s, n=2, d=2, family=0, far=2), timeout=800, path_s=200))
            T.append(Task("wrapped", dict(strategy=s, n=1, d=1, family=0, far=9), timeout=800, path_s=200))
        for s in ("nearest", "random", "shrink", "intermediate"):
            T.append(Task("placed", dict(strategy=s, n=2, d=2), timeout=800, path_s=200))
            T.append(Task("placed", dict(strategy=s, n=3, d=1, calls=2), timeout=800, path_s=200))
            T.append(Task("placed", dict(strategy=s, n=1, d=3), timeout=800, path_s=200))
    return T
