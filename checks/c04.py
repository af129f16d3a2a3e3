"""C04: the neighbourhoods are those the topology promises."""
import math

from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.topology.ring.Ring.compute_gbest",
             "pyswarms.backend.topology.von_neumann.VonNeumann.compute_gbest",
             "pyswarms.backend.topology.von_neumann.VonNeumann.delannoy",
             "pyswarms.backend.topology.random.Random.compute_gbest",
             "pyswarms.backend.topology.pyramid.Pyramid.compute_gbest"]
BOUNDS = {"quick": {"particles": "2..4", "dimensions": "1..2", "k": "1..n", "p": "1, 2", "r": "0..2",
                    "positions": "all reals incl. coincident", "updates": "1..2"},
          "thorough": {"particles": "2..5", "dimensions": "1..3", "k": "1..n", "p": "1, 2", "r": "0..2",
                       "updates": "1..3"}}
ASSUMPTIONS = ["cKDTree.query returns any k distinct points none of which is farther than an omitted one",
               "Delaunay returns an arbitrary connected undirected neighbour graph, a function of the points"]
OUTSIDE = "real kd-tree and qhull geometry; one-dimensional pyramids (qhull refuses them); more particles or " \
          "dimensions than listed"


def distance(ctx, p, a, b):
    s = 0.0
    for x, y in zip(a, b):
        s = s + ((x - y) * (x - y) if p == 2 else ctx.abs(x - y))
    return s


def nearest(ctx, top, pos, n, k, p, tag):
    P = rows(pos)
    D = [[distance(ctx, p, P[i], P[j]) for j in range(n)] for i in range(n)]
    nb = nbr_lists(ctx, top, n)
    for i in range(n):
        ctx.claim("k neighbours" + tag, len(nb[i]) == k)
        for a in range(k):
            for b in range(a):
                ctx.claim("neighbours are distinct particles" + tag, ctx.not_(nb[i][a] == nb[i][b]))
        for j in range(n):
            far = []
            for l in range(n):
                if l != j:
                    far.append(ctx.implies(isin(ctx, l, nb[i]), ctx.le(D[i][l], D[i][j])))
            ctx.claim("nobody outside the neighbourhood is nearer" + tag, ctx.or_(isin(ctx, j, nb[i]), ctx.and_(far)))


def same_lists(ctx, a, b):
    return ctx.and_([ctx.and_(len(x) == len(y), ctx.and_([u == v for u, v in zip(x, y)])) for x, y in zip(a, b)])


def spatial(ctx, name, n, d, k=2, p=2, r=1, static=False, steps=1):
    top = topology(name, static)
    s = swarm(ctx, n, d, pbest_cost=ctx.array([float(i) for i in range(n)], "f"))
    if name == "vonneumann":
        k = sum(2 ** i * math.comb(d, i) * math.comb(r, i) for i in range(min(d, r) + 1))
        if k > n:
            raise ValueError("bad task")
    first = None
    for t in range(steps):
        if t:
            s.position, s.pbest_pos = ctx.reals("pos", n, d), ctx.reals("ppos", n, d)
        top.compute_gbest(s, **gbest_kw(name, k, p, r))
        if static and t:
            ctx.claim("a static neighbourhood never changes", same_lists(ctx, first, nbr_lists(ctx, top, n)))
        else:
            nearest(ctx, top, s.position, n, k, p, " (recomputed)" if t else "")
        first = first or nbr_lists(ctx, top, n)


def connected(ctx, adj, n):
    """reachability by squaring"""
    r = [[ctx.or_(adj[i][j], i == j) for j in range(n)] for i in range(n)]
    m = 1
    while m < n:
        r = [[ctx.or_([ctx.and_(r[i][l], r[l][j]) for l in range(n)]) for j in range(n)] for i in range(n)]
        m *= 2
    return ctx.and_([r[0][j] for j in range(n)])


def randomly(ctx, n, k, static=False, steps=1):
    top = topology("random", static)
    s = swarm(ctx, n, 1, pbest_cost=ctx.array([float(i) for i in range(n)], "f"))
    first = None
    for t in range(steps):
        before = len(ENV.draws)
        if t:
            s.position = ctx.reals("pos", n, 1)
        top.compute_gbest(s, k=k)
        nb = nbr_lists(ctx, top, n)
        adj = [[isin(ctx, j, nb[i]) for j in range(n)] for i in range(n)]
        for i in range(n):
            ctx.claim("a particle is its own neighbour", adj[i][i])
            ctx.claim("at least k other neighbours", len(nb[i]) >= k + 1)
            for a in range(len(nb[i])):
                for b in range(a):
                    ctx.claim("neighbours are distinct", ctx.not_(nb[i][a] == nb[i][b]))
            for j in range(i):
                ctx.claim("neighbourhood is mutual", ctx.iff(adj[i][j], adj[j][i]))
        ctx.claim("everyone is reachable", connected(ctx, adj, n))
        if t:
            if static:
                ctx.claim("a static neighbourhood never changes", same_lists(ctx, first, nb))
            else:
                ctx.claim("a dynamic neighbourhood is drawn anew", len(ENV.draws) > before)
        first = nb


def pyramid(ctx, n, d, static=False, steps=1):
    top = topology("pyramid", static)
    s = swarm(ctx, n, d, pbest_cost=ctx.array([float(i) for i in range(n)], "f"))
    first = None
    for t in range(steps):
        if t:
            s.position = ctx.reals("pos", n, d)
        top.compute_gbest(s)
        nb = nbr_lists(ctx, top, n)
        if n < d + 1:
            for i in range(n):
                ctx.claim("too few particles for a simplex: all are connected",
                          ctx.and_([isin(ctx, j, nb[i]) for j in range(n)]))
            continue
        if static and t:
            ctx.claim("a static neighbourhood never changes", same_lists(ctx, first, nb))
            continue
        adj = proxy.triangulation(s.position)
        for i in range(n):
            for j in range(n):
                if i != j:
                    ctx.claim("neighbours share a simplex of the current positions",
                              ctx.iff(bool(adj[i][j]), isin(ctx, j, nb[i])))
        first = nb


HARNESSES = {"spatial": spatial, "randomly": randomly, "pyramid": pyramid}


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=240 if tier == "quick" else 700, path_s=120))
    for k in (1, 2, 3):
        for p in (1, 2):
            add("spatial", name="ring", n=3, d=1, k=k, p=p)
    add("spatial", name="ring", n=3, d=2, k=2, p=2)
    add("spatial", name="ring", n=3, d=2, k=2, p=1)
    add("spatial", name="ring", n=4, d=1, k=2, p=1)
    for k in (1, 2):
        add("spatial", name="ring", n=3, d=1, k=k, p=1, static=True, steps=2)
        add("spatial", name="ring", n=3, d=1, k=k, p=1, static=False, steps=2)
    add("spatial", name="vonneumann", n=3, d=1, p=2, r=1)
    add("spatial", name="vonneumann", n=3, d=1, p=1, r=1, steps=2)
    add("spatial", name="vonneumann", n=3, d=2, p=1, r=0)
    add("spatial", name="vonneumann", n=5, d=1, p=1, r=2)
    add("spatial", name="vonneumann", n=5, d=2, p=2, r=1)
    for n, k in ((2, 1), (3, 1), (3, 2), (4, 1)):
        add("randomly", n=n, k=k)
    add("randomly", n=3, k=1, static=True, steps=2)
    add("randomly", n=3, k=1, static=False, steps=2)
    for n, d in ((3, 2), (2, 2), (4, 2), (3, 3)):
        add("pyramid", n=n, d=d)
    add("pyramid", n=3, d=2, static=True, steps=2)
    add("pyramid", n=3, d=2, static=False, steps=2)
    if tier == "thorough":
        for p in (1, 2):
            for k in (1, 2, 3):
                add("spatial", name="ring", n=4, d=2, k=k, p=p)
            add("spatial", name="ring", n=5, d=1, k=3, p=p)
            add("spatial", name="ring", n=3, d=3, k=2, p=p)
            add("spatial", name="ring", n=3, d=2, k=2, p=p, static=True, steps=3)
            add("spatial", name="ring", n=3, d=2, k=2, p=p, static=False, steps=3)
        add("randomly", n=4, k=2)
        add("randomly", n=4, k=3)
        add("randomly", n=5, k=3)
        add("randomly", n=3, k=1, static=True, steps=3)
        add("pyramid", n=4, d=3)
        add("pyramid", n=5, d=2)
        add("pyramid", n=4, d=2, static=True, steps=2)
        add("pyramid", n=4, d=4)
    return T
