"""Write properties.jsonl and MANIFEST.json from props.py (run by hand, not by a check)."""
import glob, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from props import P

NOTE = ("Symbolic execution of the real functions (torch operators dispatched to exact real-number terms); every obligation is closed by the solver or by exact rewriting over all values within the stated bounds, "
        "and every counterexample is replayed on the real code before it is reported. Bounded claim: tensor sizes are the ones listed in the evidence; floats are treated as reals. "
        "Trusted: the operator semantics (checked on every path by replaying a solver witness on the real code), Z3/cvc5.")
props, checks, na = [], [], []
for p in P:
    has = bool(glob.glob(os.path.join(root, "checks", p["id"].lower() + "_*.py")))
    if not has and not p["na"]:
        continue
    a = {"files": p["files"], "mechanism": p["mechanism"]}
    if p["state"]:
        a["state"] = p["state"]
    a["observe_at"] = p["observe"]
    a["hook_needed"] = None
    assert len(p["title"]) <= 80, p["id"]
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a})
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        c = f"/opt/venv/bin/python /verif/run.py {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": c + " --tier quick", "thorough_cmd": c + " --tier thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": "symbolic execution of the real Python/torch code with SMT (Z3, cvc5)", "level": "model_checking", "level_note": NOTE + (" " + p["note"] if p["note"] else "")})
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/tools/setup.py", "checks": checks, "hooks": {"guard": "ARTIST_VERIF", "enable": "no hooks are needed: the checks drive the unmodified code in process", "source_commits": []}, "not_applicable": na, "notes": "See DESIGN.md. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties", len(checks), "checks", len(na), "not applicable")
