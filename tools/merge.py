"""merge.py OUT VARIANT=EVIDENCE...: one evidence file of the runs of several builds"""
import json, os, sys
out, parts = sys.argv[1], [a.split("=", 1) for a in sys.argv[2:]]
got = []
for v, p in parts:
    if os.path.exists(p):
        with open(p) as f:
            got.append((v, json.load(f)))
        os.remove(p)
if not got:
    sys.exit("no evidence to merge")
ev = dict(got[0][1])
cov = dict(ev["coverage"])
cov["evaluations"] = sum(e["coverage"]["evaluations"] for _, e in got)
# the same cases run in each build: as many distinct ones as builds times cases
cov["distinct_nontrivial"] = sum(e["coverage"]["distinct_nontrivial"] for _, e in got)
cov["rule"] += "; the cases of each build count separately"
cov["observed"] = {v: e["coverage"]["observed"] for v, e in got}
cov["inconclusive_cases"] = sum(e["coverage"]["inconclusive_cases"] for _, e in got)
cov["stopped_early"] = any(e["coverage"]["stopped_early"] for _, e in got)
cov["notes"] = sum((e["coverage"]["notes"] for _, e in got), [])
cov["builds"] = [v for v, _ in got]
ev["coverage"] = cov
ev["wall_s"] = round(sum(e["wall_s"] for _, e in got), 2)
ev["violations"] = sum(e["violations"] for _, e in got)
with open(out, "w") as f:
    json.dump(ev, f, indent=1)
