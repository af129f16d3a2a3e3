"""C21: binary swarms hold bits, each set with the sigmoid probability of its velocity."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.discrete.binary.BinaryPSO.optimize", "pyswarms.backend.generators.generate_discrete_swarm",
             "pyswarms.backend.operators.compute_velocity", "pyswarms.backend.topology.ring.Ring"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..2", "iterations": "2..3", "velocities": "all reals (clamped or "
                    "not)", "costs": "all IEEE doubles"},
          "thorough": {"particles": "1..4", "dimensions": "1..3", "iterations": "2..4"}}
ASSUMPTIONS = ["exp is an uninterpreted function with positivity, monotonicity and exp(0)=1",
               "given initial positions are bits"]
OUTSIDE = "the accuracy of exp; more particles, dimensions or iterations than listed"


def sigmoid(ctx, v):
    return 1 / (1 + (core.s_exp(-v) if ctx.sym else np.exp(-v)))


def bits(ctx, n, d, iters, k=1, init=False, clamp=None, vh=None, runs=1, reset=False, ftol=None):
    """every evaluated position is made of bits"""
    kw = {}
    if init:
        kw["init_pos"] = ctx.ints("init", n, d, lo=0, hi=1)
    if clamp:
        kw["velocity_clamp"] = clamp
    if vh:
        kw["vh_strategy"] = vh
    if ftol:
        kw.update(features(ctx, "binary", n, d, ftol=ftol))
    opt = optimizer(ctx, "binary", n, d, k=k, **kw)
    obj = Objective(ctx, theory="r" if ftol else "f")
    for r in range(runs):
        if r and reset:
            opt.reset()
        cost, pos = opt.optimize(obj, iters, verbose=False)
    if init:
        ctx.claim("the first positions are the given ones", ctx.identical(obj.calls[0][0], kw["init_pos"]))
    ctx.claim("every iteration evaluates the whole swarm", [len(c[0]) for c in obj.calls] == [n] * len(obj.calls))
    for x, _ in obj.evals:
        ctx.claim("evaluated positions are bits", ctx.and_([ctx.or_(v == 0, v == 1) for v in x]))
    ctx.claim("recorded positions are bits", ctx.and_([ctx.or_(v == 0, v == 1) for p in opt.pos_history for v in scalars(p)]))
    ctx.claim("the returned position is made of bits", ctx.and_([ctx.or_(v == 0, v == 1) for v in scalars(pos)]))
    if clamp:
        ctx.claim("velocities are clamped", ctx.and_([ctx.and_(v >= clamp[0], v <= clamp[1])
                                                      for V in opt.velocity_history for v in scalars(V)]))


def rule(ctx, n, d, iters=2, again=False, init=False, ftol=None, verbose=False):
    """a bit is set exactly when its own random number is below the sigmoid of its velocity"""
    a, b = ctx.real("vmin", lo=-32, hi=32), ctx.real("vmax", lo=-32, hi=32)
    ctx.assume(a < b)
    opt = optimizer(ctx, "binary", n, d, k=1, options={"w": 1.0, "c1": 0.0, "c2": 0.0}, velocity_clamp=(a, b),
                    **features(ctx, "binary", n, d, init=init, ftol=ftol))
    for r in range(2 if again else 1):
        if r and again == "reset":
            opt.reset()
        at = len(opt.velocity_history)
        obj = Objective(ctx, script=[[1.0 + i + t for i in range(n)] for t in range(iters)])
        opt.optimize(obj, iters, verbose=verbose)
    u = unit_draws()
    for t in range(1, len(obj.calls)):
        V = scalars(opt.velocity_history[at + t])
        B = [x for r in obj.calls[t][0] for x in r]
        hit = [[ctx.iff(x == 1, r < sigmoid(ctx, v)) for r in u] for x, v in zip(B, V)]
        ctx.claim("bits follow the sigmoid rule, each with its own random number", distinct(ctx, hit))
        ctx.claim("positions are bits", ctx.and_([ctx.or_(x == 0, x == 1) for x in B]))


def distinct(ctx, hit):
    """a different number for each bit"""
    if ctx.sym:
        sure = [[(i,) for i, c in enumerate(row) if z3.is_true(z3.simplify(c.exact))] for row in hit]
        if matching(sure):
            return True
    return ctx.or_([ctx.and_([hit[q][p[q]] for q in range(len(hit))])
                    for p in itertools.permutations(range(len(hit[0])), len(hit))])


def velocity(ctx, n, iters, again=False):
    """the velocity rule is the continuous one (neighbourhood of one: own best twice)"""
    opt = optimizer(ctx, "binary", n, 1, k=1, options={"w": 0.75, "c1": 0.5, "c2": 1.5})
    obj = Objective(ctx, script=[[1.0 + i + 10 * t for i in range(n)] for t in range(iters)])
    opt.optimize(obj, iters, verbose=False)
    at = 0
    if again:
        at = len(opt.pos_history)
        obj.calls.clear()
        opt.optimize(obj, iters, verbose=False)
    u = unit_draws()
    X, V = [rows(p) for p in opt.pos_history[at:]], [rows(p) for p in opt.velocity_history[at:]]
    for t in range(iters - 1):
        for i in range(n):
            ctx.claim("velocities follow the update rule", any_of(ctx, [
                ctx.same(V[t + 1][i][0], attraction(ctx, 0.75, 0.5, 1.5, V[t][i][0], X[t][i][0], X[0][i][0],
                                                    X[0][i][0], p, q)) for p, q in itertools.permutations(u, 2)]))


HARNESSES = {"bits": bits, "rule": rule, "velocity": velocity}


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=600, path_s=200))
    add("bits", n=2, d=2, iters=2, k=2)
    add("bits", n=2, d=1, iters=3)
    add("bits", n=3, d=1, iters=2)
    add("bits", n=1, d=1, iters=3)
    add("bits", n=2, d=2, iters=2, init=True)
    add("bits", n=2, d=1, iters=2, clamp=(-4.0, 4.0))
    add("bits", n=2, d=1, iters=2, clamp=(-4.0, 4.0), vh="adjust", init=True)
    add("rule", n=1, d=1)
    add("rule", n=1, d=2)
    add("rule", n=2, d=1)
    add("rule", n=1, d=1, iters=3)
    add("rule", n=1, d=1, again="again")
    add("rule", n=1, d=1, again="reset")
    add("rule", n=1, d=2, init=True)
    add("rule", n=1, d=1, iters=3, ftol=1, verbose=True)
    add("bits", n=2, d=1, iters=1, runs=2)
    add("bits", n=1, d=1, iters=2, runs=2, reset=True)
    add("bits", n=1, d=2, iters=2, clamp=(-4.0, 4.0), ftol=1)
    add("velocity", n=1, iters=2, again=True)
    add("velocity", n=1, iters=2)
    add("velocity", n=2, iters=2)
    add("velocity", n=1, iters=3)
    if tier == "thorough":
        add("bits", n=3, d=2, iters=2, k=2)
        add("bits", n=2, d=3, iters=2, k=2)
        add("bits", n=2, d=1, iters=4)
        add("bits", n=4, d=1, iters=2)
        add("bits", n=2, d=2, iters=3)
        add("rule", n=2, d=2)
        add("rule", n=1, d=3)
        add("velocity", n=2, iters=3)
        for t in T:
            t.timeout = 1200
            t.path_s = 600
    return T
