"""Developer aid: run one harness in-process with tracing.  usage: debug.py checks.p12_kinematics align"""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), ROOT]
import torch  # noqa

os.chdir("/tmp")
mod = importlib.import_module(sys.argv[1])
from symex import harness, terms as tm


def show(t, depth=6):
    if not isinstance(t, tm.T):
        return str(t)
    if t.op == "var":
        return str(t.meta)
    if depth == 0:
        return ".."
    return f"{t.op}({', '.join(show(a, depth - 1) for a in t.args)})"


what = os.environ.get("TRACE", "arc,decide,sqrt").split(",")


def wrap(obj, name, tag, fmt):
    o = getattr(obj, name)

    def f(*a):
        r = o(*a)
        print(tag, fmt(a), "->", show(r, 6)[:500], flush=True)
        return r

    setattr(obj, name, f)


if "arc" in what:
    wrap(harness.Explorer, "arc_angle", "ARC", lambda a: show(a[3], 9)[:900])
if "atan2" in what:
    wrap(harness.Explorer, "polar_angle", "ATAN2", lambda a: show(a[2], 9)[:700] + " ; " + show(a[3], 9)[:700])
if "sqrt" in what:
    wrap(tm, "sqrt", "SQRT", lambda a: show(a[0], 7)[:700])
if "decide" in what:
    od = harness.Explorer.decide

    def dec(self, c):
        n = len(self.trace)
        r = od(self, c)
        if len(self.trace) > n:
            print("DECIDE", show(c, 6)[:500], r, self.trace[-1], flush=True)
        return r

    harness.Explorer.decide = dec
hd = next(h for h in mod.HARNESSES if h["name"] == sys.argv[2])
opts = dict(hd["opts"])
opts["budget_s"] = float(os.environ.get("BUDGET", opts["budget_s"]))
r = harness.explore(hd["name"], hd["fn"], harness.Cfg(seed=1, **opts))
print(r.status, r.paths, r.messages[:3], r.labels, r.notes, vars(r.stats))
