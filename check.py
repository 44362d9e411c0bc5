#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property from /repo's current source."""
import importlib, json, os, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from sa.driver import Broken
from sa.registry import FAMILY, INFO

def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "open": out.append(d)
    return out

def merge(a, b):
    """one result from two families"""
    if a is None: return b
    r = dict(b); r.update(a)
    for k in ("reports", "functions", "opaque", "entries"):
        if k in a and k in b: r[k] = a[k] + [x for x in b[k] if x not in a[k]]
    for k in ("counts", "numbers"):
        r[k] = dict(b.get(k, {}))
        for x, n in a.get(k, {}).items(): r[k][x] = r[k].get(x, 0) + n
    return r

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time(); work = tempfile.mkdtemp(prefix="sa-%s-" % prop)
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    try:
        try:
            res = None
            for m in FAMILY[prop].split("+"): res = merge(res, importlib.import_module("sa." + m).check(prop, tier, work))
        except Broken as e:
            sys.stderr.write("%s: no verdict: %s\n" % (prop, e)); return 3
    finally: shutil.rmtree(work, ignore_errors=True)
    # one violation per construct and message
    seen = {}
    for r in res["reports"]:
        k = (r["message"], r["where"])
        if k in seen: seen[k]["instances"].append(r.get("instance", "")); continue
        r = dict(r); r["instances"] = [r.pop("instance", "")]; seen[k] = r
    kn = known(prop); viol = []; hits = []
    for r in seen.values():
        m = next((d for d in kn if d["message"] == r["message"] and d["where"].split(":")[0] == r["where"].split(":")[0] and d.get("function", r.get("entry")) == r.get("entry")), None)
        (hits if m else viol).append((m, r))
    for m in {d["what"]: d for d, r in hits}.values(): print("KNOWN-FINDING: property=%s %s" % (prop, m["what"]))
    out = []
    rd = os.path.join(ev, "replay"); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + "-"): os.unlink(os.path.join(rd, f))
    for i, (_, r) in enumerate(viol[:20]):
        path = os.path.join(rd, "%s-%d.json" % (prop, i + 1)); json.dump(r, open(path, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (r["where"], r["message"]))
        if r.get("path"): print("    call path: %s" % r["path"])
        for t in r.get("trace", [])[-8:]: print("      %s" % t)
        if any(r["instances"]): print("    in: %s" % ", ".join(sorted(set(r["instances"]))[:8]))
    n = sum(v for v in res.get("counts", {}).values())
    info = INFO.get(prop, {})
    # the rule must still have something to look at
    over = [c for c, n in info.get("max", {}).items() if res.get("counts", {}).get(c, 0) > n]
    missing = [c for c in info.get("expect", ()) if not res.get("counts", {}).get(c)]
    doc = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
           "coverage": {"explanation": info.get("rule", ""), "obligations": n, "checked": res.get("counts", {}), **{k: v for k, v in res.items() if k not in ("reports", "counts")}},
           "wall_s": round(time.time() - t0, 2), "violations": len(viol), "assumptions": info.get("assumptions", [])}
    json.dump(doc, open(os.path.join(ev, prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d obligations, %d violations, %.1f s" % (prop, tier, n, len(viol), time.time() - t0))
    if viol: return 1
    if over:
        sys.stderr.write("%s: no verdict: %s\n" % (prop, ", ".join(over))); return 3
    if missing:
        sys.stderr.write("%s: no verdict: nothing found to check for: %s\n" % (prop, ", ".join(missing))); return 3
    return 0
if __name__ == "__main__": sys.exit(main())
