"""Replay counterexamples on the real library (real numpy, scipy, pyswarms).

    python -m symx.replay FILE          one saved counterexample
    python -m symx.replay --serve       JSON lines on stdin (used by the checks)
"""
import importlib
import json
import os
import sys
import tempfile


def boot(plot=False):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    os.environ.setdefault("MPLBACKEND", "Agg")
    from symx import proxy
    proxy.PLOT[0] = plot
    d = tempfile.mkdtemp(prefix="symx-")
    os.chdir(d)
    try:
        proxy.install_conc()
    finally:
        pass
    return d


def one(req):
    from symx import harness
    mod = importlib.import_module("checks." + req["check"])
    fn = mod.HARNESSES[req["harness"]]
    return harness.run_conc(fn, req["params"], req["model"], req.get("script", False),
                            req.get("draws") == "f16")


def main():
    if sys.argv[1] == "--serve":
        outp = os.fdopen(os.dup(1), "w")
        os.dup2(2, 1)
        boot(plot="--plot" in sys.argv)
        for line in sys.stdin:
            req = json.loads(line)
            try:
                r = one(req)
            except BaseException as e:
                import traceback
                r = {"error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-2000:]}
            outp.write(json.dumps(r) + "\n")
            outp.flush()
        return 0
    path = os.path.abspath(sys.argv[1])
    req = json.load(open(path))
    boot(plot=req.get("plot", False))
    r = one(req)
    label = req["label"]
    print("harness  :", req["check"], req["harness"], json.dumps(req["params"]))
    print("claim    :", label)
    print("inputs   :", json.dumps({k: v[1] for k, v in req["model"]["vals"].items()}))
    bad = (r["exc"] is not None) if label.startswith("raises ") else (r["claims"].get(label) is False)
    print("exception:", r["exc"])
    print("result   :", "VIOLATED" if bad else "holds")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
