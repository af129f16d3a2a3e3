"""A recording optimizer for the parameter searches."""
from checks.common import *


class Recorder:
    """class factory: what the search builds and runs"""

    def __init__(self, ctx, fixed=None):
        self.runs = runs = []

        class Optimizer:
            def __init__(self, n_particles, dimensions, options, bounds=None, oh_strategy=None, bh_strategy="periodic",
                         velocity_clamp=None, vh_strategy="unmodified", center=1.0, ftol=-np.inf, ftol_iter=1,
                         init_pos=None):
                self.r = {"n": n_particles, "d": dimensions, "options": dict(options), "bounds": bounds,
                          "clamp": velocity_clamp, "rest": (oh_strategy, bh_strategy, vh_strategy, center, ftol,
                                                            ftol_iter, init_pos), "calls": []}
                runs.append(self.r)

            def optimize(self, objective_func, iters, n_processes=None, verbose=True, **kw):
                self.r["calls"].append((objective_func, iters, kw))
                s = fixed[(len(runs) - 1) % len(fixed)] if fixed else ctx.number("score", "f", nonan=True)
                self.r["score"] = s
                return s, "position"

        self.cls = Optimizer


def same_options(ctx, a, b):
    if sorted(a) != sorted(b):
        return False
    return ctx.and_([ctx.identical(a[k], b[k]) for k in a])


def best_claims(ctx, runs, best, opts, maximum, tag=""):
    scores = [r["score"] for r in runs]
    if maximum:
        ctx.claim("no score is better than the reported one" + tag, ctx.and_([s <= best for s in scores]))
    else:
        ctx.claim("no score is better than the reported one" + tag, ctx.and_([s >= best for s in scores]))
    ctx.claim("the reported options produced the reported score" + tag, ctx.or_(
        [ctx.and_(ctx.identical(r["score"], best), same_options(ctx, r["options"], opts)) for r in runs]))


def same_thing(a, b):
    if a is b:
        return True
    if isinstance(a, (tuple, list, np.ndarray)) and isinstance(b, (tuple, list, np.ndarray)):
        return len(a) == len(b) and all(same_thing(p, q) for p, q in zip(a, b))
    return a is not None and b is not None and type(a) in (int, float) and a == b


def built_right(ctx, runs, n, d, bounds, clamp, fn, iters):
    for r in runs:
        ctx.claim("every optimizer gets the user's setting", ctx.and_(
            r["n"] == n, r["d"] == d, same_thing(r["bounds"], bounds), same_thing(r["clamp"], clamp),
            r["rest"][:5] == (None, "periodic", "unmodified", 1.0, -np.inf), r["rest"][6] is None))
        ctx.claim("every setting is run once, with the user's objective", ctx.and_(
            len(r["calls"]) == 1, [c[0] is fn and c[1] == iters and not c[2] for c in r["calls"]]))
