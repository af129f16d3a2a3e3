"""Run one property check:  python -m symx.run C01 [quick|thorough] [--task substr]"""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VENV not in sys.path:
    sys.path.append(VENV)
if HERE not in sys.path:
    sys.path.insert(0, HERE)
os.environ.setdefault("MPLBACKEND", "Agg")

import z3  # noqa: E402

from symx import core, harness, proxy  # noqa: E402
from symx.core import Budget, Endless, Engine, EngineStop, Unsupported  # noqa: E402
from symx.proxy import ENV  # noqa: E402


class Task:
    def __init__(self, harness, params=None, timeout=240, query_ms=60000, max_paths=20000, draws="r",
                 validate=2, plot=False, allow_empty=False, path_s=60):
        self.path_s = path_s
        self.harness = harness
        self.params = params or {}
        self.timeout = timeout
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.draws = draws
        self.validate = validate
        self.plot = plot
        self.allow_empty = allow_empty

    @property
    def name(self):
        return self.harness + "(" + ",".join("%s=%s" % kv for kv in sorted(self.params.items())) + ")"


# --------------------------------------------------------------------------
class Replayer:
    def __init__(self, plot=False):
        cmd = [sys.executable, "-m", "symx.replay", "--serve"] + (["--plot"] if plot else [])
        env = dict(os.environ, PYTHONPATH=HERE, TMPDIR=os.getcwd())
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=HERE, env=env, text=True)

    def ask(self, req, timeout=60):
        import select
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            return {"error": "replay timed out", "timeout": True}
        line = self.p.stdout.readline()
        if not line:
            return {"error": "replayer died"}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class TaskRunner:
    def __init__(self, check, prop, task, known, seed):
        self.check, self.prop, self.task, self.known = check, prop, task, known
        self.mod = importlib.import_module("checks." + check)
        self.fn = self.mod.HARNESSES[task.harness]
        self.replayer = None
        self.res = {"task": task.name, "violation": None, "known": [], "inconclusive": [],
                    "claims": 0, "claims_trivial": 0, "labels": {}, "samples": [], "validated": 0,
                    "mismatch": [], "within_tol": 0, "encoded": {}}
        self.eng = Engine(query_timeout_ms=task.query_ms, max_paths=task.max_paths,
                          deadline=time.time() + task.timeout)
        self.eng.base = list(core.PI_FACTS)
        self.seed = seed

    def ask(self, model, script=False, timeout=60):
        if self.replayer is None:
            self.replayer = Replayer(self.task.plot)
        r = self.replayer.ask({"check": self.check, "harness": self.task.harness,
                               "params": self.task.params, "model": model, "script": script,
                               "draws": self.task.draws}, timeout)
        if r.get("timeout") or "died" in str(r.get("error")):
            self.replayer.close()
            self.replayer = None
        return r

    def widen(self):
        """costs do not only get compared: start again with a format that has (nearly) every constant"""
        i = [core.FPC, core.FP32, core.FP64].index(core.COST[0])
        if i == 2:
            return False
        core.COST[0] = (core.FP32, core.FP64)[i]
        core.COST[1] = i == 0
        self.res["widened"] = self.res.get("widened", 0) + 1
        self.res.update({"claims": 0, "claims_trivial": 0, "labels": {}, "samples": [], "validated": 0, "mismatch": [],
                         "within_tol": 0, "inconclusive": [], "known": []})
        self.eng = Engine(query_timeout_ms=self.task.query_ms, max_paths=self.task.max_paths, deadline=self.eng.deadline)
        self.eng.base = list(core.PI_FACTS)
        return True

    # -- body --------------------------------------------------------------
    def body(self):
        ENV.reset()
        ENV.mode = "sym"
        ENV.draw_theory = {"r": "r", "mini": core.FPC, "f16": core.FP16, "f32": core.FP32, "f64": core.FP64}[self.task.draws]
        self.ctx = harness.Ctx("sym")
        self.ctx.eng = self.eng
        signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.task.path_s)
        try:
            return self.fn(self.ctx, **self.task.params)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def _alarm(self, *a):
        raise Endless("one path ran for more than %d s" % self.task.path_s)

    def on_stop(self, exc):
        """a path that could not be followed to its end"""
        if isinstance(exc, Endless):
            n = 0
            for mod in self.models([z3.BoolVal(True)]):
                r = self.ask(mod, timeout=25)
                if r.get("timeout"):
                    self.report("terminates", mod, False,
                                {"observed": {}, "exc": "no result after 25 s", "claims": {"terminates": False}}, None)
                n += 1
                if n >= 4:
                    break
        elif isinstance(exc, Unsupported):
            self.concretely()
        note = "%s: %s" % (type(exc).__name__, exc)
        if note not in self.res["inconclusive"] and len(self.res["inconclusive"]) < 5:
            self.res["inconclusive"].append(note)
            self.res["where"] = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1800:]

    def concretely(self):
        """a path the encoding cannot follow: try models of its prefix on the real code"""
        if self.res.get("prefix_replays", 0) >= 12 or self.task.draws == "mini":
            return
        n = 0
        for mod in self.models([z3.BoolVal(True)]):
            r = self.ask(mod)
            n += 1
            self.res["prefix_replays"] = self.res.get("prefix_replays", 0) + 1
            if not (r.get("error") or r.get("skipped")):
                bad = [l for l, ok in r["claims"].items() if ok is False]
                if bad:
                    self.report(bad[0], mod, False, r, None)
                if r["exc"]:
                    self.report("raises " + r["exc"].split(":")[0], mod, False, r, r["exc"])
            if n >= 4:
                break

    def run(self):
        t0 = time.time()
        core.COST[:] = [core.FPC, self.task.draws != "mini" and self.task.params.get("fmt") != "mini"]
        try:
            while True:
                try:
                    self.eng.explore(self.body, self.on_path, self.on_stop)
                    break
                except core.TooNarrow:
                    if not self.widen():
                        raise
            if self.eng.stats["paths"] == 0 and not self.res["inconclusive"]:
                self.res["inconclusive"].append("vacuous: no feasible path reaches the end")
            elif self.res["claims"] + self.res["claims_trivial"] == 0 and not self.task.allow_empty \
                    and not self.res["inconclusive"]:
                self.res["inconclusive"].append("vacuous: no claim was reached")
        except _Stop:
            pass
        except EngineStop as e:
            self.res["inconclusive"].append("%s: %s" % (type(e).__name__, e))
            self.res["where"] = traceback.format_exc()[-1800:]
        except Exception as e:
            self.res["inconclusive"].append("internal error %s: %s" % (type(e).__name__, e))
            self.res["where"] = traceback.format_exc()[-1800:]
        finally:
            if self.replayer:
                self.replayer.close()
        self.res["stats"] = dict(self.eng.stats)
        self.res["wall"] = time.time() - t0
        return self.res

    # -- claims of one finished path -----------------------------------------
    def on_path(self, result, exc):
        ctx, e = self.ctx, self.eng
        if exc is not None:
            label = "raises %s" % type(exc).__name__
            tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1800:]
            self.candidate(label, [z3.BoolVal(True)], "%s: %s" % (type(exc).__name__, exc), tb)
            return
        todo = []
        for label, c in ctx.claims:
            self.res["labels"][label] = self.res["labels"].get(label, 0) + 1
            if c is None:
                self.res["claims_trivial"] += 1
            else:
                self.res["claims"] += 1
                todo.append((label, c))
        if todo:
            bad = z3.Or([z3.Not(c.exact) for _, c in todo])
            hard = len(todo) == 1 or core.has_fp_terms(bad) and (
                self.task.draws != "r" or any(not z3.is_fp(v) for v in e.vars.values()))
            if hard or self.decide(bad, 6000) != "unsat":
                self.individually(todo)
        if e.path_unknown:
            r = e.check()
            if r == "unsat":
                e.stats["infeasible_paths"] += 1
                return
        self.validate()

    def decide(self, goal, ms=None):
        if ms is None:
            return self.eng.refute(goal)
        keep, self.eng.query_timeout_ms = self.eng.query_timeout_ms, min(ms, self.eng.query_timeout_ms)
        try:
            return self.eng.check(goal)
        finally:
            self.eng.query_timeout_ms = keep

    def individually(self, todo):
        e = self.eng
        for label, c in todo:
            r = self.decide(z3.Not(c.exact), 8000)
            if r == "unknown" and self.res.get("guessed", 0) < 4:
                self.res["guessed"] = self.res.get("guessed", 0) + 1
                self.partly_fixed(label, z3.Not(c.loose))
            if r == "unknown":
                r = self.decide(z3.Not(c.exact))
            if r == "unsat":
                continue
            if r == "unknown":
                r = self.harder(z3.Not(c.exact))
                if r == "unsat":
                    continue
            if c.loose is not c.exact:
                r2 = e.check(z3.Not(c.loose))
                if r2 == "unknown":
                    r2 = self.harder(z3.Not(c.loose))
                if r2 == "unsat":
                    self.res["within_tol"] += 1
                    continue
                r = r2
            self.candidate(label, [z3.Not(c.loose), z3.Not(c.exact)], None, None, unknown=(r == "unknown"))

    def partly_fixed(self, label, goal, budget=20):
        """an undecided claim: look for a counterexample with most real inputs fixed, which is an easier query"""
        e = self.eng
        rnd = random.Random(self.seed)
        end = time.time() + budget
        reals = [v for v in e.vars.values() if z3.is_real(v)]
        while time.time() < end:
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(e.base)
            s.add(e.pc)
            rnd.shuffle(reals)
            keep = rnd.choice([0, 0, 0, 1, 2, len(reals) // 2])
            for v in reals[keep:]:
                s.push()
                s.add(v == z3.Q(rnd.randrange(-48, 49) or 5, 16))
                if s.check() == z3.sat:
                    continue
                s.pop()
                s.push()
                s.add(v == z3.Q(rnd.randrange(1, 16), 16))
                if s.check() != z3.sat:
                    s.pop()
                if time.time() > end:
                    break
            s.set("timeout", 4000)
            s.add(goal)
            t = time.time()
            r = s.check()
            e.stats["solver_s"] += time.time() - t
            e.stats["queries"] += 1
            if r == z3.sat:
                mod = harness.extract(e, s.model())
                for script in (False, True):
                    a = self.ask(mod, script)
                    if not (a.get("error") or a.get("skipped")) and a["claims"].get(label) is False:
                        self.report(label, mod, script, a, None)

    def harder(self, goal):
        """second opinions for an undecided query"""
        e = self.eng
        fs = e.slice(goal) + [goal]
        for mk in (lambda: z3.SolverFor("QF_NRA"), lambda: z3.Then("simplify", "solve-eqs", "smt").solver(),
                   lambda: z3.Then("simplify", "purify-arith", "elim-term-ite", "solve-eqs", "qfnra-nlsat").solver()):
            try:
                s = mk()
                s.set("timeout", self.task.query_ms)
                s.add(fs)
                t = time.time()
                r = str(s.check())
                e.stats["solver_s"] += time.time() - t
                e.stats["queries"] += 1
            except z3.Z3Exception:
                continue
            if r != "unknown":
                e.stats[r] = e.stats.get(r, 0) + 1
                return r
        return cvc5_check(fs, self.task.query_ms, e)

    def models(self, goals):
        """candidate models, friendliest first"""
        e = self.eng
        reals = [v for v in e.vars.values() if z3.is_real(v)]
        fps = [v for v in e.vars.values() if z3.is_fp(v)]
        nice, mid = [], []
        for i, v in enumerate(reals):
            k = z3.Int("nice!%d" % i)
            nice += [v * 8 == z3.ToReal(k), v <= 16, v >= -16]
            mid += [v <= 64, v >= -64]
        fpn = []
        for v in fps:
            s = v.sort()
            fpn.append(z3.Or([v == z3.FPVal(c, s) for c in (0.0, 1.0, 2.0, 3.0, -1.0, 0.5, 4.0)]))
        seen = set()
        facts = []
        for goal in goals:
            for extra, to in ((nice + fpn, 8000), (nice, 8000), (mid + fpn, 8000), (mid, 15000), ([], 30000)):
                for rnd in range(2):
                    s = z3.Solver()
                    s.set("timeout", to)
                    s.set("random_seed", 7 * rnd + self.seed)
                    s.add(e.base)
                    s.add(e.pc)
                    s.add(goal)
                    s.add(extra)
                    s.add(facts)
                    t = time.time()
                    r = s.check()
                    e.stats["solver_s"] += time.time() - t
                    e.stats["queries"] += 1
                    if r == z3.unsat and facts and not extra and goal is goals[0]:
                        self.refuted = True     # impossible with the functions' real values
                        return
                    if r != z3.sat:
                        break
                    m = s.model()
                    for m in self.realistic(s, m, facts) + [m]:
                        mod = harness.extract(e, m)
                        key = json.dumps(mod, sort_keys=True)
                        if key not in seen:
                            seen.add(key)
                            yield mod

    def realistic(self, s, m, facts, rounds=4):
        """models with the real values of exp, sin, ... at the points they use"""
        out = []
        for _ in range(rounds):
            if not self.eng.ufs or time.time() > self.eng.deadline:
                break
            new, pins = core.pinned(self.eng, m)
            if not new:
                break
            facts += new
            for extra in (pins, []):
                s.push()
                s.add(new)
                s.add(extra)
                s.set("timeout", 4000)
                t = time.time()
                r = s.check()
                self.eng.stats["solver_s"] += time.time() - t
                self.eng.stats["queries"] += 1
                if r == z3.sat and extra:
                    out.append(s.model())
                    s.pop()
                    return out
                if r == z3.sat:
                    m = s.model()
                s.pop()
            if r != z3.sat:
                break
            s.add(new)
        return out

    def candidate(self, label, goals, excmsg, tb, unknown=False):
        for k in self.known:
            if k["property"] == self.prop and k.get("label") in (None, label) and \
                    k.get("harness") in (None, self.task.harness) and \
                    all(self.task.params.get(a) == b for a, b in k.get("params", {}).items()):
                self.res["known"].append(k["text"])
                return
        tried, last = 0, None
        self.refuted = False
        for mod in self.models(goals):
            for script in (False, True):
                r = self.ask(mod, script)
                tried += 1
                last = r
                if r.get("error") or r.get("skipped"):
                    continue
                if excmsg is not None:
                    hit = r["exc"] is not None and r["exc"].split(":")[0] == excmsg.split(":")[0]
                else:
                    hit = r["claims"].get(label) is False or (r["exc"] is not None)
                if hit:
                    self.report(label, mod, script, r, excmsg)
            if tried >= 24:
                break
        if self.refuted and excmsg is None:
            self.res["refined"] = self.res.get("refined", 0) + 1
            return
        self.res["inconclusive"].append(
            "%s: %s" % (label, "solver gave no verdict and no model" if (unknown and not tried) else
                        "counterexample did not reproduce on the real code (%d tried)" % tried))
        self.res["unreproduced"] = {"label": label, "last": last, "exc": excmsg, "tb": tb}
        raise _Stop()

    def report(self, label, mod, script, r, excmsg):
        req = {"property": self.prop, "check": self.check, "harness": self.task.harness,
               "params": self.task.params, "model": mod, "script": script, "label": label,
               "plot": self.task.plot, "draws": self.task.draws, "observed": r["observed"], "exception": r["exc"], "trace": r.get("tb")}
        if label.startswith("raises ") is False and r["claims"].get(label) is not False:
            req["label"] = "raises " + r["exc"].split(":")[0]
        h = hashlib.sha1(json.dumps([self.task.name, label], sort_keys=True).encode()).hexdigest()[:10]
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump(req, f, indent=1)
        self.res["violation"] = {"label": req["label"], "path": path, "task": self.task.name,
                                 "exception": r["exc"]}
        raise _Stop()

    # -- encoding validation ---------------------------------------------------
    def validate(self):
        """replay a model of this explored path on the real code and compare"""
        e = self.eng
        if self.res["validated"] >= self.task.validate or len(self.res["mismatch"]) >= 3:
            return
        tried = False
        for mod, m in self.path_models():
            tried = True
            r = self.ask(mod)
            if r.get("error") or r.get("skipped"):
                continue
            bad = self.differences(r, m)
            if bad:
                r2 = self.ask(mod, True)
                if not (r2.get("error") or r2.get("skipped")):
                    bad = self.differences(r2, m)
            if bad:
                self.res["mismatch"].append({"what": bad[:3], "model": mod["vals"]})
                continue
            self.res["validated"] += 1
            if len(self.res["samples"]) < 2:
                self.res["samples"].append({"task": self.task.name,
                                            "inputs": {k: v[1] for k, v in list(mod["vals"].items())[:14]},
                                            "claims": list(r["claims"])[:8]})
            return

    def path_models(self):
        e = self.eng
        reals = [v for v in e.vars.values() if z3.is_real(v)]
        fps = [v for v in e.vars.values() if z3.is_fp(v)]
        nice = []
        for i, v in enumerate(reals):
            nice += [v * 64 == z3.ToReal(z3.Int("nice!%d" % i)), v <= 64, v >= -64]
        for v in fps:
            nice.append(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v), z3.And(
                z3.fpLEQ(z3.fpAbs(v), z3.FPVal(64.0, v.sort())),
                z3.fpGEQ(z3.fpAbs(v), z3.FPVal(0.25, v.sort()))), z3.fpIsZero(v)))
        for extra, to in ((nice, 3000), ([], 5000)):
            s = z3.Solver()
            s.set("timeout", to)
            s.add(e.base)
            s.add(e.pc)
            s.add(extra)
            t = time.time()
            r = s.check()
            e.stats["solver_s"] += time.time() - t
            if r == z3.sat:
                m = s.model()
                for m in self.realistic(s, m, []) or [m]:
                    yield harness.extract(e, m), m

    def differences(self, r, m):
        bad = []
        if r["exc"]:
            bad.append("real code raised " + r["exc"])
        for l, ok in r["claims"].items():
            if not ok:
                bad.append("claim %s fails concretely" % l)
        for l, v in self.ctx.observed:
            o = r["observed"].get(l)
            if o is None or len(o) != len(v):
                bad.append("observation %s has another shape" % l)
                continue
            for a, b in zip(v, o):
                x = harness.sym_value(m, a)
                if x is None or b is None:
                    continue
                y = float(b)
                if x != x and y != y:
                    continue
                if not (x == y or abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))):
                    bad.append("observation %s: symbolic %r real %r" % (l, x, y))
                    break
        return bad


class _Stop(Exception):
    pass


class _StopEngine(EngineStop):
    pass


def cvc5_check(fs, ms, e):
    """ask cvc5 about the same formulas"""
    try:
        s = z3.Solver()
        s.add(fs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        t = time.time()
        p = subprocess.run(["cvc5", "--tlimit=%d" % ms, f.name], capture_output=True, text=True,
                           timeout=ms / 1000 + 10)
        e.stats["solver_s"] += time.time() - t
        e.stats["queries"] += 1
        os.unlink(f.name)
        first = p.stdout.strip().split("\n")[0] if p.stdout.strip() else ""
        if "(error" in p.stdout:
            return "unknown"
        if first in ("sat", "unsat"):
            return first
    except Exception:
        pass
    return "unknown"


def _work(args):
    check, prop, task, known, seed = args
    return TaskRunner(check, prop, task, known, seed).run()


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known"]


def encoded_functions(mod):
    """source files whose code the harnesses execute, with hashes"""
    outl = []
    for f in getattr(mod, "FUNCTIONS", []):
        outl.append(f)
    return outl


def main():
    prop = sys.argv[1]
    tier = "quick"
    sel = None
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--task="):
            sel = a[7:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = prop.lower()
    t0 = time.time()
    mod = importlib.import_module("checks." + check)
    tasks = mod.tasks(tier)
    if sel:
        tasks = [t for t in tasks if sel in t.name]
    known = load_known()
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="symx-")
    os.chdir(scratch)
    os.environ["PYTHONPATH"] = HERE
    try:
        proxy.PLOT[0] = any(t.plot for t in tasks)
        proxy.install_sym()
    except Exception as e:
        traceback.print_exc()
        print("CHECK-ERROR property=%s cannot load pyswarms symbolically: %s" % (prop, e))
        return 2
    results = []
    ctx = multiprocessing.get_context("fork")
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    jobs = [(check, prop, t, known, seed) for t in tasks]
    violation = None
    if nproc == 1 or len(jobs) == 1:
        for j in jobs:
            r = _work(j)
            results.append(r)
            if r["violation"]:
                violation = r["violation"]
                break
    else:
        pool = ctx.Pool(min(nproc, len(jobs)), maxtasksperchild=1)
        limit = t0 + (820 if tier == "quick" else 4 * 3600)
        try:
            it = pool.imap_unordered(_work, jobs, chunksize=1)
            while len(results) < len(jobs):
                try:
                    r = it.next(timeout=max(0.1, limit - time.time()))
                except (multiprocessing.TimeoutError, StopIteration):
                    break
                results.append(r)
                if r["violation"]:
                    violation = r["violation"]
                    break
        finally:
            pool.terminate()
            pool.join()
    wall = time.time() - t0
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    inconc = [(r["task"], i, r.get("where"), r.get("unreproduced")) for r in results for i in r["inconclusive"]]
    done = {r["task"] for r in results}
    if not violation:
        inconc += [(t.name, "not reached within the time of this run", None, None) for t in tasks if t.name not in done]
    concluded = len([r for r in results if not r["inconclusive"]])
    knownhits = sorted({k for r in results for k in r["known"]})
    labels = {}
    for r in results:
        for l, n in r["labels"].items():
            labels[l] = labels.get(l, 0) + n
    samples = [s for r in results for s in r["samples"]][:8]
    mism = [dict(m, task=r["task"]) for r in results for m in r["mismatch"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "samples": samples,
            "functions_encoded": encoded_functions(mod),
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "harness_tasks": [{"task": r["task"], "paths": r["stats"].get("paths", 0),
                               "claims_decided": r["claims"] + r["claims_trivial"],
                               "by_rewriting": r["claims_trivial"],
                               "queries": r["stats"].get("queries", 0),
                               "solver_s": round(r["stats"].get("solver_s", 0), 2)} for r in results],
            "claims": labels,
            "claims_decided_by_query": sum(r["claims"] for r in results),
            "claims_decided_by_rewriting": sum(r["claims_trivial"] for r in results),
            "claims_within_tolerance_only": sum(r["within_tol"] for r in results),
            "queries": tot.get("queries", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0),
            "unknown": tot.get("unknown", 0), "solver_s": round(tot.get("solver_s", 0), 2),
            "infeasible_paths": tot.get("infeasible_paths", 0),
            "encoding_validation_mismatches": mism[:5],
            "inconclusive": [(a, b) for a, b, _, _ in inconc][:10],
            "exhaustive": not inconc and not violation,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    if not sel and "VERIF_REPO" not in os.environ:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    os.chdir(cwd)
    subprocess.run(["rm", "-rf", scratch])
    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if os.environ.get("VERIF_DEBUG") or inconc:
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print("  %-60s paths %5d claims %5d+%-5d q %5d solver %6.1fs wall %6.1fs val %d mm %d" % (
                r["task"][:60], r["stats"]["paths"], r["claims"], r["claims_trivial"], r["stats"]["queries"],
                r["stats"]["solver_s"], r["wall"], r["validated"], len(r["mismatch"])) + (
                    " wider costs" if r.get("widened") else ""))
        for m in mism[:5]:
            print("  MISMATCH", m["task"], m["what"], json.dumps(m["model"])[:400])
    if violation:
        print("  claim violated: %s in %s %s" % (violation["label"], violation["task"], violation["exception"] or ""))
        print("VIOLATION property=%s replay=%s" % (prop, violation["path"]))
        return 1
    if inconc:
        for t, i, w, u in inconc[:6]:
            print("INCONCLUSIVE %s: %s" % (t, i))
            if w and os.environ.get("VERIF_DEBUG"):
                print(w)
            if u and os.environ.get("VERIF_DEBUG"):
                print(json.dumps(u)[:3000])
        if 2 * concluded < len(tasks):
            print("property=%s: no verdict" % prop)
            return 2
        print("INCOMPLETE property=%s: %d of %d harness tasks undecided (listed above and in the evidence); "
              "no violation in the rest" % (prop, len(tasks) - concluded, len(tasks)))
    print("property=%s tier=%s: %d harness tasks, %d paths, %d claims (%d by rewriting), %d queries, "
          "solver %.1fs, %d traces validated, wall %.1fs: held within bounds" % (
              prop, tier, len(results), tot.get("paths", 0),
              sum(r["claims"] + r["claims_trivial"] for r in results),
              sum(r["claims_trivial"] for r in results), tot.get("queries", 0), tot.get("solver_s", 0),
              ev["coverage"]["traces_validated_against_impl"], wall))
    return 0


COMMON_ASSUMPTIONS = [
    "CPython executes the source of /repo; numpy is modelled element-wise (arrays of symbolic scalars)",
    "positions, velocities and coefficients are exact reals unless the task says IEEE; costs are IEEE doubles "
    "unless the task says otherwise",
    "random draws are arbitrary values of their documented range (nondeterministic stub)",
    "multiprocessing.Pool, tqdm, logging, scipy.spatial and scipy.sparse.csgraph are contract stubs",
    "a real-arithmetic claim counts as violated only beyond 1e-6",
]

if __name__ == "__main__":
    sys.exit(main())
