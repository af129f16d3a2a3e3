"""C11: the option schedules follow their documented formulas."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.backend.handlers.OptionsHandler.exp_decay/lin_variation/random/nonlin_mod/__call__"]
BOUNDS = {"quick": {"start, end values, d1, d2, n": "all reals (n: also concrete exponents)", "iteration": "0..itermax, "
                    "itermax 1..1000, all integers", "options": "every subset of {w, c1, c2} with every strategy"},
          "thorough": {"start, end values, d1, d2, n": "all reals", "iteration": "0..itermax, itermax 1..10^6",
                       "options": "every assignment of strategies to options"}}
ASSUMPTIONS = ["exp and real powers are uninterpreted functions with positivity, monotonicity and unit facts"]
OUTSIDE = "the numerical accuracy of exp and pow"
KEYS = ("w", "c1", "c2")


def default_end(start, opt):
    return {"w": 0.4, "c1": 0.8 * start["c1"], "c2": 1.0 * start["c2"]}[opt]


def expected(ctx, name, start, opt, now, top, kw, draws):
    s = start[opt]
    ends = kw.get("end_opts") or {}
    if name == "random":
        e = ends[opt] if opt in ends else s + 1
        return [s + (e - s) * u for u in draws]
    e = ends[opt] if opt in ends else default_end(start, opt)
    if name == "lin_variation":
        return [e + (s - e) * (top - now) / top]
    if name == "exp_decay":
        d1, d2 = kw.get("d1", 0.2), kw.get("d2", 7)
        return [(s - e - d1) * exp(ctx, 1 / (1 + d2 * now / top))]
    m = kw.get("n", 1.2)
    return [e + (s - e) * ((top - now) ** m / top ** m)]


def exp(ctx, x):
    return core.s_exp(x) if ctx.sym else np.exp(x)


def iterations(ctx, most):
    top = ctx.int("itermax", 1, most)
    now = ctx.int("iternow", 0, most)
    ctx.assume(now <= top)
    return now, top


def formula(ctx, name, opt, ends=None, extra=None, most=1000, key=None):
    """one option, one strategy; ends: which options have a user-given final value"""
    start = {k: ctx.real("start_" + k) for k in KEYS}
    kw = {}
    if ends is not None:
        kw["end_opts"] = {k: ctx.real("end_" + k) for k in ends}
    if extra == "d":
        kw["d1"], kw["d2"] = ctx.real("d1"), ctx.real("d2", lo=0)
    if extra == "n":
        kw["n"] = key
    now, top = iterations(ctx, most)
    keep = dict(start)
    given = dict(kw.get("end_opts", {}))
    got = options_handler({opt: name})(start, iternow=now, itermax=top, **kw)
    want = expected(ctx, name, keep, opt, now, top, kw, unit_draws())
    ctx.claim("%s follows its formula" % name, any_of(ctx, [ctx.same(got[opt], v) for v in want]))
    for k in KEYS:
        if k != opt:
            ctx.claim("options without a strategy keep their value", ctx.identical(got[k], keep[k]))
        ctx.claim("the initial options are left alone", ctx.identical(start[k], keep[k]))
    ctx.claim("the same options come back", sorted(got) == sorted(KEYS) and sorted(start) == sorted(KEYS))
    if ends is not None:
        ctx.claim("the final values are left alone", ctx.and_(
            sorted(kw["end_opts"]) == sorted(given), [ctx.identical(kw["end_opts"][k], given[k]) for k in given]))
    if name in ("lin_variation", "random"):
        ctx.observe("v", got[opt])


def together(ctx, names, most=1000):
    """several options with different strategies at once; the extra keys stay"""
    start = {k: ctx.real("start_" + k) for k in KEYS}
    start["k"] = 3
    keep = dict(start)
    now, top = iterations(ctx, most)
    strat = {k: s for k, s in zip(KEYS, names) if s}
    got = options_handler(strat)(start, iternow=now, itermax=top)
    draws = unit_draws()
    for k in KEYS:
        if k in strat:
            want = expected(ctx, strat[k], keep, k, now, top, {}, draws)
            ctx.claim("%s follows its formula" % strat[k], any_of(ctx, [ctx.same(got[k], v) for v in want]))
        else:
            ctx.claim("options without a strategy keep their value", ctx.identical(got[k], keep[k]))
    ctx.claim("other options keep their value", got["k"] == 3)
    ctx.claim("the initial options are left alone", ctx.and_([ctx.identical(start[k], keep[k]) for k in keep]))


def ends_meet(ctx, name, opt, given):
    """monotone schedules start at the start value and finish at the final value"""
    start = {k: ctx.real("start_" + k) for k in KEYS}
    kw = {"end_opts": {opt: ctx.real("end")}} if given else {}
    end = kw["end_opts"][opt] if given else default_end(start, opt)
    top = ctx.int("itermax", 1, 1000)
    oh = options_handler({opt: name})
    a = oh(start, iternow=0, itermax=top, **kw)[opt]
    b = oh(start, iternow=top, itermax=top, **kw)[opt]
    ctx.claim("the first value is the start value", ctx.same(a, start[opt]))
    ctx.claim("the last value is the final value", ctx.same(b, end))
    now = ctx.int("iternow", 0, 1000)
    ctx.assume(now <= top)
    c = oh(start, iternow=now, itermax=top, **kw)[opt]
    ctx.claim("every value lies between start and final value", ctx.or_(
        ctx.and_(ctx.le(c, start[opt]), ctx.ge(c, end)), ctx.and_(ctx.ge(c, start[opt]), ctx.le(c, end))))


HARNESSES = {"formula": formula, "together": together, "ends_meet": ends_meet}


def tasks(tier):
    T = []
    most = 1000 if tier == "quick" else 10 ** 6
    for s in STRATEGIES_O:
        for o in KEYS:
            T.append(Task("formula", dict(name=s, opt=o, most=most)))
            T.append(Task("formula", dict(name=s, opt=o, ends=KEYS, most=most)))
        T.append(Task("formula", dict(name=s, opt="c1", ends=("c2",), most=most)))
    for o in KEYS:
        T.append(Task("formula", dict(name="exp_decay", opt=o, extra="d", ends=KEYS, most=most)))
        for n in (1, 2, 0.5, 3):
            T.append(Task("formula", dict(name="nonlin_mod", opt=o, extra="n", key=n, most=most)))
        T.append(Task("ends_meet", dict(name="lin_variation", opt=o, given=False)))
        T.append(Task("ends_meet", dict(name="lin_variation", opt=o, given=True)))
        T.append(Task("ends_meet", dict(name="nonlin_mod", opt=o, given=True)))
    names = (None,) + STRATEGIES_O
    combos = [("exp_decay", "lin_variation", "nonlin_mod"), ("random", "random", "random"), (None, "random", None),
              ("lin_variation", None, "exp_decay"), (None, None, None), ("nonlin_mod", "random", "lin_variation")]
    if tier == "thorough":
        combos = list(itertools.product(names, repeat=3))
    T += [Task("together", dict(names=c, most=most)) for c in combos]
    return T
