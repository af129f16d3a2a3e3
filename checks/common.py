"""Helpers shared by the check harnesses."""
import itertools

import numpy as np
import z3

from symx import core, proxy
from symx.core import SymNum, eng, is_sym
from symx.harness import Cond, Objective, rows, scalars, shape_of
from symx.proxy import ENV

OPTS = {"c1": 0.5, "c2": 0.3, "w": 0.9}


def swarm(ctx, n, d, **over):
    """an arbitrary swarm; over: ready arrays"""
    from pyswarms.backend.swarms import Swarm
    kw = dict(position=lambda: ctx.reals("pos", n, d), velocity=lambda: ctx.reals("vel", n, d),
              pbest_pos=lambda: ctx.reals("ppos", n, d))
    kw = {k: (over.pop(k) if k in over else f()) for k, f in kw.items()}
    kw.update(over)
    return Swarm(**kw)


def unit_draws(since=0):
    return [v for nm, st, v in ENV.draws[since:]
            if ".int" not in st and st not in ("rint", "rchoice", "nbr", "edge", "pyint", "nrm")]


def any_of(ctx, conds):
    return ctx.or_(list(conds))


def generic(ctx, vals):
    """assume pairwise different values away from 0 (an open dense set)"""
    vals = list(vals)
    for v in vals:
        ctx.assume(ctx.or_(v > 0.015625, v < -0.015625))
    for a, b in itertools.combinations(vals, 2):
        ctx.assume(ctx.or_(a - b > 0.015625, b - a > 0.015625))


def holds_identically(ctx, cond):
    """sym: the condition is valid on this path; conc: it holds here"""
    if not ctx.sym:
        return bool(cond)
    c = z3.simplify(cond.exact)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    e = eng()
    return e.implied(c)


def topology(name, static=False):
    from pyswarms.backend import topology as T
    if name == "star":
        return T.Star()
    if name == "vonneumann":
        return T.VonNeumann()
    return {"ring": T.Ring, "random": T.Random, "pyramid": T.Pyramid}[name](static=static)


def gbest_kw(name, k=2, p=2, r=1):
    return {"star": {}, "ring": {"p": p, "k": k}, "vonneumann": {"p": p, "r": r}, "random": {"k": k},
            "pyramid": {}}[name]


def optimizer(ctx, kind, n, d, k=2, p=2, static=False, options=None, **kw):
    """one of the four optimizers; kind 'general:ring' selects the topology"""
    import pyswarms as ps
    o = dict(OPTS if options is None else options)
    if kind == "global":
        return ps.single.GlobalBestPSO(n, d, o, **kw)
    if kind == "local":
        o.update(k=k, p=p)
        return ps.single.LocalBestPSO(n, d, o, static=static, **kw)
    if kind == "binary":
        o.update(k=k, p=p)
        return ps.discrete.BinaryPSO(n, d, o, **kw)
    name = kind.split(":")[1]
    o.update(gbest_kw(name, k, p))
    return ps.single.GeneralOptimizerPSO(n, d, o, topology(name, static), **kw)


def nbr_lists(ctx, top, n):
    """neighbourhoods of a topology as concrete-length lists of indices"""
    idx = top.neighbor_idx
    return [scalars(idx[i]) for i in range(n)]


def isin(ctx, j, lst):
    return ctx.or_([x == j for x in lst])


class Trace:
    """everything a run shows from the outside"""

    def __init__(self, ctx, opt, obj, result):
        self.cost, self.pos = result
        self.cost_h = list(opt.cost_history)
        self.mean_p = list(opt.mean_pbest_history)
        self.mean_n = list(opt.mean_neighbor_history)
        self.pos_h = list(opt.pos_history)
        self.vel_h = list(opt.velocity_history)
        self.calls = list(obj.calls)
        self.evals = list(obj.evals)

    def items(self):
        yield "returned cost", self.cost
        yield "returned position", self.pos
        for nm, h in (("best costs", self.cost_h), ("mean personal best costs", self.mean_p),
                      ("mean neighbourhood costs", self.mean_n), ("positions", self.pos_h),
                      ("velocities", self.vel_h)):
            for t, v in enumerate(h):
                yield "%s" % nm, v


def same_trace(ctx, a, b):
    """claims that two runs show the same"""
    la, lb = [len(x.pos_h) for x in (a, b)]
    ctx.claim("same number of iterations", la == lb)
    ia, ib = list(a.items()), list(b.items())
    if len(ia) != len(ib):
        ctx.claim("same histories", False)
        return
    for (nm, x), (_, y) in zip(ia, ib):
        ctx.claim("same " + nm, ctx.same(x, y))


def replay_randomness():
    """restart the random draws: the next ones repeat those made so far"""
    ENV.counter = {}
    ENV.seeded = None


def snapshot(x):
    return [list(r) for r in rows(x)]


def vector(ctx, vals):
    return ctx.array(list(vals), "f")


def clip(ctx, v, lo, hi):
    return ctx.ite(v <= lo, lo, ctx.ite(v >= hi, hi, v))


STRATEGIES_V = ("unmodified", "adjust", "invert", "zero")
STRATEGIES_B = ("nearest", "random", "shrink", "reflective", "intermediate", "periodic")
STRATEGIES_O = ("exp_decay", "lin_variation", "nonlin_mod", "random")


def velocity_handler(name):
    from pyswarms.backend.handlers import VelocityHandler
    return VelocityHandler(strategy=name)


def boundary_handler(name):
    from pyswarms.backend.handlers import BoundaryHandler
    return BoundaryHandler(strategy=name)


def options_handler(strategy):
    from pyswarms.backend.handlers import OptionsHandler
    return OptionsHandler(strategy=strategy)


def box(ctx, d, lo=-4, hi=4, gap=0.125):
    """arbitrary lower and upper bounds, lb < ub"""
    lb = ctx.reals("lb", d, lo=lo, hi=hi)
    ub = ctx.reals("ub", d, lo=lo, hi=hi)
    for j in range(d):
        ctx.assume(lb[j] + gap <= ub[j])
    return lb, ub


def row_outside(ctx, x, lb, ub):
    return ctx.or_([ctx.or_(x[j] < lb[j], x[j] > ub[j]) for j in range(len(x))])


def attraction(ctx, w, c1, c2, v, x, pb, gb, a, b):
    return w * v + c1 * a * (pb - x) + c2 * b * (gb - x)


def reseed():
    """np.random.seed(s) again with the same s: only numpy's global generator restarts"""
    ENV.counter = {k: v for k, v in ENV.counter.items() if k.startswith(("py", "rng"))}
    ENV.seeded = None


def closed_pools(since=0):
    return all(p.closed for p in ENV.pools[since:])


def matching(sets):
    """one element of every set, no draw used twice"""
    if not sets:
        return True
    for use in sets[0]:
        if matching([[u for u in s if not set(u) & set(use)] for s in sets[1:]]):
            return True
    return False


def certainly(ctx, c):
    return bool(c) if not ctx.sym else z3.is_true(z3.simplify(c.exact))


KINDS = ("global", "local", "binary", "general:star", "general:ring")


def features(ctx, kind, n, d, oh=None, bh=None, vh=None, clamp=None, ftol=None, init=False):
    """keyword arguments for optimizer(), with those the kind does not know left out"""
    kw = {}
    if oh and kind != "binary":
        kw["oh_strategy"] = dict(oh) if not isinstance(oh, str) else {"w": oh}
    if bh and kind != "binary":
        kw.update(bounds=(ctx.array([-1.0] * d, "f"), ctx.array([2.0] * d, "f")), bh_strategy=bh)
    if vh and (vh in ("unmodified", "adjust") or "bounds" in kw):      # the others need bounds
        kw["vh_strategy"] = vh
    if clamp:
        kw["velocity_clamp"] = clamp
    if ftol:
        kw.update(ftol=ctx.real("ftol", lo=0, hi=8), ftol_iter=ftol)
    if init:
        if kind == "binary":
            kw["init_pos"] = ctx.ints("init", n, d, lo=0, hi=1)
        else:
            x = kw["init_pos"] = ctx.reals("init", n, d)
            if bh:
                for v in scalars(x):
                    ctx.assume(ctx.and_(v >= -1.0, v <= 2.0))
    return kw
