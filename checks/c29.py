"""C29: plots and animations are given exactly the recorded data."""
from checks.common import *
from symx.run import Task

FUNCTIONS = ["pyswarms.utils.plotters.formatters.Mesher.compute_history_3d",
             "pyswarms.utils.plotters.plotters.plot_cost_history/plot_contour/plot_surface"]
BOUNDS = {"quick": {"iterations": "1..3", "particles": "1..4", "grid": "up to 4x5 points", "positions, costs and function "
                    "values": "all reals", "workers": "none, 1..5"},
          "thorough": {"iterations": "1..5", "particles": "1..7", "grid": "up to 6x7 points", "workers": "none, 1..8"}}
ASSUMPTIONS = ["matplotlib is a recorder: it draws what it is given",
               "multiprocessing.Pool.map applies the function to every item and keeps the order (contract stub)"]
OUTSIDE = "the drawing itself"


class Recorder:
    """stands for any matplotlib object"""

    def __init__(self, log=None, name="canvas"):
        object.__setattr__(self, "log", [] if log is None else log)
        object.__setattr__(self, "name", name)

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)

        def call(*a, **k):
            r = Recorder(self.log, nm)
            self.log.append((nm, a, k, r, self))
            return r
        return call

    def __setattr__(self, nm, v):
        self.log.append(("=" + nm, (v,), {}, None, self))
        object.__setattr__(self, nm, v)

    def __iter__(self):
        return iter((self,))

    def calls(self, nm):
        return [c for c in self.log if c[0] == nm]


class Drawing:
    """matplotlib replaced by recorders while it lasts"""

    def __init__(self):
        self.fig = Recorder()
        self.log = self.fig.log
        self.ax = Recorder(self.log)
        self.anims = []

    def __enter__(self):
        import matplotlib.animation
        import matplotlib.pyplot as plt
        import mpl_toolkits.mplot3d as m3
        from pyswarms.utils.plotters import plotters
        drawing = self

        class Anim:
            def __init__(self, fig, func, frames=None, init_func=None, fargs=None, **kw):
                self.func, self.frames, self.fargs, self.kw = func, frames, fargs or (), kw
                drawing.anims.append(self)

        def axes3d(*a, **k):
            return drawing.ax

        def subplots(*a, **k):
            return drawing.fig, drawing.ax
        new = [(matplotlib.animation, "FuncAnimation", Anim), (m3, "Axes3D", axes3d), (plt, "subplots", subplots),
               (plt, "figure", lambda *a, **k: drawing.fig)]
        self.undo = []
        for mod, nm, v in new:
            old = getattr(mod, nm)
            self.undo.append((mod, nm, old))
            setattr(mod, nm, v)
            for q, w in list(vars(plotters).items()):
                if w is old:
                    self.undo.append((plotters, q, w))
                    setattr(plotters, q, v)
        return self

    def __exit__(self, *a):
        for mod, nm, v in reversed(self.undo):
            setattr(mod, nm, v)

    def shown(self, anim, i):
        """what frame i puts on the canvas"""
        at = len(self.log)
        anim.func(i, *anim.fargs)
        return self.log[at:]


def function(ctx):
    def f(x):
        return ctx.array([ctx.apply("f", r, "r") for r in rows(x)], "f")
    return f


def history3d(ctx, iters, n, procs=None, as_array=False):
    from pyswarms.utils.plotters.formatters import Mesher
    since = len(ENV.pools)
    hist = [ctx.reals("pos", n, 2) for _ in range(iters)]
    keep = [snapshot(h) for h in hist]
    given = ctx.array([v for h in keep for r in h for v in r], "f", (iters, n, 2)) if as_array else hist
    m = Mesher(func=function(ctx))
    r = m.compute_history_3d(given, procs) if procs else m.compute_history_3d(given)
    ctx.claim("one entry per iteration and particle", shape_of(r) == (iters, n, 3))
    for t in range(iters):
        for i in range(n):
            x, y = keep[t][i]
            ctx.claim("coordinates and function value", ctx.and_(ctx.identical(r[t][i], ctx.array(
                [x, y, ctx.apply("f", [x, y], "r")], "f"))))
    for h, k in zip(hist, keep):
        ctx.claim("the history is left alone", ctx.identical(h, k))
    ctx.claim("workers are only used when asked for, and are released", closed_pools(since) and
              (procs is not None or len(ENV.pools) == since))


def mesher(ctx, lim, delta):
    from pyswarms.utils.plotters.formatters import Mesher
    return Mesher(func=function(ctx), limits=list(lim), delta=delta, levels=[-1.0, 0.0, 2.0], alpha=0.25)


def axis(lo, hi, delta):
    k = int(np.ceil((hi - lo) / delta))
    return [lo + i * delta for i in range(k)]


def mesh_claims(ctx, call, lim, delta):
    a = call[1]
    xs, ys = axis(*lim[0], delta), axis(*lim[1], delta)
    if len(a) < 3 or shape_of(a[2]) != (len(ys), len(xs)) or shape_of(a[0]) != shape_of(a[2]) or \
            shape_of(a[1]) != shape_of(a[2]):
        ctx.claim("the surface covers the limits in steps of delta", False)
        return
    X, Y, Z = rows(a[0]), rows(a[1]), rows(a[2])
    for j, y in enumerate(ys):
        for i, x in enumerate(xs):
            ctx.claim("the surface covers the limits in steps of delta", ctx.and_(
                ctx.same(X[j][i], x), ctx.same(Y[j][i], y)))
            ctx.claim("the surface is the function", ctx.same(Z[j][i], ctx.apply("f", [X[j][i], Y[j][i]], "r")))


def trajectory(ctx, kind, iters, n, mesh=None, procs=None, mark=False, own=False, designed=False, as_list=False):
    """contour (2-d) and surface (3-d) animations"""
    from pyswarms.utils.plotters import plotters
    from pyswarms.utils.plotters.formatters import Animator, Designer
    d = 2 if kind == "contour" else 3
    hist = [ctx.reals("pos", n, d) for _ in range(iters)]
    keep = [snapshot(h) for h in hist]
    if not as_list:
        hist = ctx.array([v for h in keep for r in h for v in r], "f", (iters, n, d))
    since = len(ENV.pools)
    kw = {}
    lim = [(-1, 1)] * d
    label = ["x-axis", "y-axis", "z-axis"]
    if designed:
        lim = [(-2.0, 3.0), (0.0, 5.0), (-7.0, 9.0)][:d]
        label = ["one", "two", "three"][:d]
        kw["designer"] = Designer(limits=lim, label=label)
        kw["animator"] = Animator(interval=33, repeat=False, repeat_delay=5)
        kw["title"] = "Some title"
    if mesh:
        kw["mesher"] = mesher(ctx, *mesh)
    if procs:
        kw["n_processes"] = procs
    if mark:
        kw["mark"] = tuple(ctx.real("mark") for _ in range(d))
    with Drawing() as D:
        if own:
            kw["canvas"] = (D.fig, D.ax)
        anim = getattr(plotters, "plot_" + kind)(hist, **kw)
        log = list(D.log)
        ctx.claim("one animation", len(D.anims) == 1 and anim is D.anims[0])
        frames = list(anim.frames) if not isinstance(anim.frames, int) else list(range(anim.frames))
        ctx.claim("one frame per iteration, in order", frames == list(range(iters)))
        ctx.claim("the animation runs as asked", (
            anim.kw.get("interval"), anim.kw.get("repeat"), anim.kw.get("repeat_delay")) == (
            (33, False, 5) if designed else (80, True, None)))
        for i in frames[::-1] + frames:
            shown = D.shown(anim, i)
            if kind == "contour":
                got = [c[1][0] for c in shown if c[0] == "set_offsets"]
                ctx.claim("a frame shows the particles of its iteration", len(got) == 1 and ctx.identical(got[0], keep[i]))
            else:
                got = [c[1][0] for c in shown if c[0] == "=_offsets3d"]
                cols = [[keep[i][a][b] for a in range(n)] for b in range(3)]
                ctx.claim("a frame shows the particles of its iteration", len(got) == 1 and ctx.and_(
                    len(got[0]) == 3, [ctx.identical(g, ctx.array(c, "f")) for g, c in zip(got[0], cols)]))

    def calls(nm):
        return [c for c in log if c[0] == nm]
    for ax, l, t in zip("xyz", lim, label):
        ctx.claim("limits as given", [tuple(c[1][0]) if len(c[1]) == 1 else c[1] for c in calls("set_%slim" % ax)] == [tuple(l)])
        ctx.claim("labels as given", [c[1][0] for c in calls("set_%slabel" % ax)] == [t])
    ctx.claim("title as given", [c[1][0] for c in calls("set_title")] == ["Some title" if designed else "Trajectory"])
    drawn = calls("contour" if kind == "contour" else "plot_surface")
    ctx.claim("a surface only with a mesh", len(drawn) == (1 if mesh else 0))
    if mesh and drawn:
        mesh_claims(ctx, drawn[0], *mesh)
        if kind == "contour":
            ctx.claim("levels as given", list(drawn[0][2].get("levels", ())) == [-1.0, 0.0, 2.0])
    marks = [c for c in calls("scatter") if c[1]]
    if mark:
        ctx.claim("the mark is where it was asked", len(marks) == 1 and ctx.and_(
            len(marks[0][1]) == d, [ctx.identical(a, b) for a, b in zip(marks[0][1], kw["mark"])]))
    for h, k in zip(hist, keep):
        ctx.claim("the history is left alone", ctx.identical(h, k))
    ctx.claim("workers are only used when asked for, and are released", closed_pools(since) and
              (procs is not None or len(ENV.pools) == since))


def costs(ctx, iters, own=False, designed=False, form="list"):
    from pyswarms.utils.plotters import plotters
    from pyswarms.utils.plotters.formatters import Designer
    c = [ctx.fp("cost") for _ in range(iters)]
    given = {"list": list, "array": lambda v: ctx.array(v, "f")}[form](c)
    kw = {}
    if designed:
        kw.update(designer=Designer(legend="mine", label=["one", "two"]), title="Some title")
    with Drawing() as D:
        if own:
            kw["ax"] = D.ax
        ax = plotters.plot_cost_history(given, **kw)
        plots = D.ax.calls("plot")
        ctx.claim("the axes drawn on are returned", ax is D.ax)
        ctx.claim("one line", len(plots) == 1)
        a = plots[0][1]
        ctx.claim("iterations 0, 1, ... on one axis", ctx.and_(
            shape_of(a[0]) == (iters,), [x == i for i, x in enumerate(scalars(a[0]))]))
        ctx.claim("the recorded costs on the other", ctx.and_(
            shape_of(a[1]) == (iters,), [ctx.identical(x, y) for x, y in zip(scalars(a[1]), c)]))
        ctx.claim("labels as given", [D.ax.calls("set_%slabel" % q)[0][1][0] for q in "xy"] == (
            ["one", "two"] if designed else ["Iterations", "Cost"]))
        ctx.claim("legend as given", plots[0][2].get("label") == ("mine" if designed else "Cost"))
        ctx.claim("title as given", D.ax.calls("set_title")[0][1][0] == ("Some title" if designed else "Cost History"))


HARNESSES = {"history3d": history3d, "trajectory": trajectory, "costs": costs}


def tasks(tier):
    T = []

    def add(h, **kw):
        T.append(Task(h, kw, timeout=600, path_s=200, plot=True))
    deep = tier == "thorough"
    for it, n in ((1, 1), (2, 3), (3, 2)) + (((5, 7),) if deep else ()):
        add("history3d", iters=it, n=n)
        add("history3d", iters=it, n=n, as_array=True)
        for p in (1, 2, 5) + ((8,) if deep else ()):
            add("history3d", iters=it, n=n, procs=p, as_array=p == 2)
    meshes = [((((-1.0, 1.0), (-1.0, 1.0)), 0.5)), ((((0.0, 2.0), (-3.0, 0.75)), 0.75)), ((((-2.0, -1.0), (4.0, 6.0)), 0.4))]
    if deep:
        meshes.append((((-1.0, 1.5), (-2.0, 1.0)), 0.45))
    for kind in ("contour", "surface"):
        add("trajectory", kind=kind, iters=3, n=2)
        add("trajectory", kind=kind, iters=2, n=3, own=True, as_list=True)
        add("trajectory", kind=kind, iters=2, n=1, designed=True, mark=True)
        add("trajectory", kind=kind, iters=2, n=2, mark=True, own=True)
        for m in meshes:
            add("trajectory", kind=kind, iters=1, n=2, mesh=m)
            add("trajectory", kind=kind, iters=1, n=2, mesh=m, designed=True, procs=3)
        add("trajectory", kind=kind, iters=1, n=1, mesh=meshes[0], procs=1)
        add("trajectory", kind=kind, iters=1, n=1, mesh=(((0.0, 1.0), (0.0, 1.0)), 0.5), procs=7)
    for it in (1, 2, 5):
        for form in ("list", "array"):
            add("costs", iters=it, form=form)
            add("costs", iters=it, form=form, own=True, designed=True)
    return T
