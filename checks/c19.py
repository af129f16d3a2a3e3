"""C19: every swarm starts where the user asked: inside the bounds, at the given positions, with allowed velocities."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.generators.generate_swarm/generate_discrete_swarm/generate_velocity/create_swarm",
             "pyswarms.backend.swarms.Swarm", "pyswarms.base.*.reset", "pyswarms.single.*.__init__",
             "pyswarms.discrete.binary.BinaryPSO.__init__"]
BOUNDS = {"quick": {"particles": "1..3", "dimensions": "1..3", "bounds, centres, clamps, initial positions": "all reals"},
          "thorough": {"particles": "1..5", "dimensions": "1..4", "bounds, centres, clamps, initial positions": "all reals"}}
ASSUMPTIONS = ["bounded swarms use the default centre", "lower limits are below upper limits"]
OUTSIDE = "rounding; more particles or dimensions than listed"


def between(ctx, x, a, b):
    return ctx.or_(ctx.and_(x >= a, x <= b), ctx.and_(x >= b, x <= a))


def free(ctx, n, d, center):
    """unbounded swarms fill the box between 0 and the centre"""
    from pyswarms.backend.generators import generate_swarm
    if center == "scalar":
        c = [ctx.real("center")] * d
        p = generate_swarm(n, d, center=c[0])
    elif center == "array":
        c = [ctx.real("center") for _ in range(d)]
        p = generate_swarm(n, d, center=ctx.array(c, "f"))
    else:
        c = [1.0] * d
        p = generate_swarm(n, d)
    ctx.claim("one position per particle", shape_of(p) == (n, d))
    u = unit_draws()
    for r in rows(p):
        for j in range(d):
            ctx.claim("positions lie between 0 and the centre", between(ctx, r[j], 0.0, c[j]))
            ctx.claim("positions are uniform over the box", any_of(ctx, [ctx.same(r[j], c[j] * v) for v in u]))


def limits(ctx, n, d, aslist=False):
    """bounded swarms fill the bounds"""
    from pyswarms.backend.generators import generate_swarm
    lb, ub = box(ctx, d)
    b = (scalars(lb), scalars(ub)) if aslist else (lb, ub)
    p = generate_swarm(n, d, bounds=b)
    ctx.claim("one position per particle", shape_of(p) == (n, d))
    u = unit_draws()
    for r in rows(p):
        for j in range(d):
            ctx.claim("positions lie within the bounds", ctx.and_(r[j] >= lb[j], r[j] <= ub[j]))
            ctx.claim("positions are uniform over the bounds", any_of(
                ctx, [ctx.same(r[j], lb[j] + (ub[j] - lb[j]) * v) for v in u]))


def given(ctx, via, n, d, bounded, aslist=False):
    """initial positions are used as they are, and rejected when out of bounds"""
    from pyswarms.backend import generators as g
    x = ctx.reals("init", n, d)
    keep = snapshot(x)
    lb, ub = box(ctx, d)
    b = ((scalars(lb), scalars(ub)) if aslist else (lb, ub)) if bounded else None
    inside = ctx.and_([ctx.and_(r[j] >= lb[j], r[j] <= ub[j]) for r in keep for j in range(d)])
    try:
        if via == "generate":
            p = g.generate_swarm(n, d, bounds=b, init_pos=x)
        elif via == "create":
            p = g.create_swarm(n, d, bounds=b, init_pos=x).position
        else:
            p = optimizer(ctx, via, n, d, k=1, bounds=b, init_pos=x).swarm.position
    except ValueError:
        ctx.claim("initial positions within the bounds are accepted", ctx.and_(bounded, ctx.not_(inside)))
        return
    if bounded:
        ctx.claim("initial positions out of bounds are rejected", inside)
    ctx.claim("the swarm starts at the given positions", ctx.identical(p, keep))
    ctx.claim("the given positions are left alone", ctx.identical(x, keep))


def velocity(ctx, via, n, d, clamp):
    from pyswarms.backend import generators as g
    if clamp == "scalar":
        a, b = ctx.real("vmin"), ctx.real("vmax")
        ctx.assume(a < b)
        cl, A, B = (a, b), [a] * d, [b] * d
    elif clamp == "array":
        A, B = [ctx.real("vmin") for _ in range(d)], [ctx.real("vmax") for _ in range(d)]
        for a, b in zip(A, B):
            ctx.assume(a < b)
        cl = (ctx.array(A, "f"), ctx.array(B, "f"))
    else:
        cl, A, B = None, [0.0] * d, [1.0] * d
    if via == "generate":
        v = g.generate_velocity(n, d, clamp=cl)
    elif via == "create":
        v = g.create_swarm(n, d, clamp=cl).velocity
    else:
        v = optimizer(ctx, via, n, d, k=1, velocity_clamp=cl).swarm.velocity
    u = unit_draws()
    ctx.claim("one velocity per particle", shape_of(v) == (n, d))
    for r in rows(v):
        for j in range(d):
            ctx.claim("initial velocities are within the clamp", ctx.and_(r[j] >= A[j], r[j] <= B[j]))
            ctx.claim("initial velocities are uniform over the clamp", any_of(
                ctx, [ctx.same(r[j], A[j] + (B[j] - A[j]) * x) for x in u]))


def start(ctx, kind, n, d):
    """what a new optimizer holds"""
    lb, ub = box(ctx, d)
    kw = {} if kind == "binary" else dict(bounds=(lb, ub))
    opt = optimizer(ctx, kind, n, d, k=1, **kw)
    s = opt.swarm
    ctx.claim("sizes", ctx.and_(shape_of(s.position) == (n, d), shape_of(s.velocity) == (n, d),
                                s.n_particles == n, s.dimensions == d))
    ctx.claim("every particle's best is its start", ctx.identical(s.pbest_pos, s.position))
    for r in rows(s.position):
        for j in range(d):
            ctx.claim("starts are allowed positions", ctx.or_(r[j] == 0, r[j] == 1) if kind == "binary" else
                      ctx.and_(r[j] >= lb[j], r[j] <= ub[j]))
    for h in (opt.cost_history, opt.pos_history, opt.velocity_history, opt.mean_pbest_history,
              opt.mean_neighbor_history):
        ctx.claim("nothing is recorded yet", len(h) == 0)


def discrete(ctx, n, d, binary):
    from pyswarms.backend.generators import generate_discrete_swarm
    p = generate_discrete_swarm(n, d, binary=binary)
    ctx.claim("one position per particle", shape_of(p) == (n, d))
    for r in rows(p):
        if binary:
            for x in r:
                ctx.claim("binary positions are 0 or 1", ctx.or_(x == 0, x == 1))
        else:
            for k in range(d):
                ctx.claim("discrete positions are permutations", any_of(ctx, [x == k for x in r]))


def given_bits(ctx, n, d, via, most=3):
    """binary initial positions: two values at most"""
    from pyswarms.backend.generators import generate_discrete_swarm
    x = ctx.ints("bit", n, d, lo=0, hi=most)
    keep = snapshot(x)
    flat = [v for r in keep for v in r]
    three = ctx.or_([ctx.and_(ctx.not_(a == b), ctx.not_(a == c), ctx.not_(b == c))
                     for a, b, c in itertools.combinations(flat, 3)])
    try:
        if via == "generate":
            p = generate_discrete_swarm(n, d, binary=True, init_pos=x)
        else:
            p = optimizer(ctx, "binary", n, d, k=1, init_pos=x).swarm.position
    except ValueError:
        ctx.claim("binary initial positions are accepted", three)
        return
    ctx.claim("initial positions of more than two values are rejected", ctx.not_(three))
    ctx.claim("the swarm starts at the given positions", ctx.identical(p, keep))
    ctx.claim("the given positions are left alone", ctx.identical(x, keep))


HARNESSES = {"free": free, "limits": limits, "given": given, "velocity": velocity, "start": start,
             "discrete": discrete, "given_bits": given_bits}
KINDS = ("global", "local", "general:star", "general:ring")


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=600, path_s=200))
    sizes = [(1, 1), (2, 2), (3, 1)] + ([(4, 3), (2, 4), (5, 1)] if tier == "thorough" else [])
    for n, d in sizes:
        for c in (None, "scalar", "array"):
            add("free", n=n, d=d, center=c)
        add("limits", n=n, d=d)
        add("limits", n=n, d=d, aslist=True)
        for via in ("generate", "create") + (KINDS if n * d <= 4 else ()):
            for c in (None, "scalar", "array"):
                add("velocity", via=via, n=n, d=d, clamp=c)
        add("discrete", n=n, d=d, binary=True)
    add("velocity", via="binary", n=2, d=2, clamp="scalar")
    add("velocity", via="binary", n=2, d=1, clamp=None)
    for n, d in ((1, 1), (2, 1), (1, 2), (2, 2)) + (((3, 2), (2, 3)) if tier == "thorough" else ()):
        for via in ("generate", "create") + KINDS:
            add("given", via=via, n=n, d=d, bounded=True)
            add("given", via=via, n=n, d=d, bounded=False)
        add("given", via="generate", n=n, d=d, bounded=True, aslist=True)
    for k in KINDS + ("binary",):
        add("start", kind=k, n=2, d=2)
        add("start", kind=k, n=1, d=3)
    for n, d in ((1, 1), (1, 3), (2, 2)) + (((2, 3), (1, 4)) if tier == "thorough" else ()):
        add("discrete", n=n, d=d, binary=False)
    for n, d in ((1, 2), (2, 2), (3, 1)):
        add("given_bits", n=n, d=d, via="generate", most=2)
        add("given_bits", n=n, d=d, via="binary", most=2)
    return T
