"""bin/check: decide one property on the current tree."""
import importlib, json, os, re, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from facts import Facts
from rep import Report

VERIF = extract.VERIF


def known(prop):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    configs = ["all"] if tier == "quick" else ["all", "default", "core-min"]
    rep = Report(prop)
    merged = rep
    per = {}
    for c in configs:
        d = os.environ.get("VERIF_FACTS") or extract.extract(c)
        try:
            F = Facts(d) if c != "core-min" else CoreFacts(d)
        finally:
            if not os.environ.get("VERIF_FACTS"):
                shutil.rmtree(d, ignore_errors=True)
        F.config = c
        mod = importlib.import_module("rules." + prop.lower())
        if c != "all" and not getattr(mod, "CONFIGS", {}).get(c, c == "default" or getattr(mod, "CORE", False)):
            continue
        r = rep if c == "all" else Report(prop)
        mod.run(F, r, tier)
        per[c] = {"obligations": len(r.obligations), "violations": len(r.violations)}
        if r is not rep:
            have = {v["key"] for v in rep.violations}
            rep.violations += [dict(v, config=c) for v in r.violations if v["key"] not in have]
    kn = known(prop)
    new = [v for v in rep.violations if v["key"] not in kn]
    old = [v for v in rep.violations if v["key"] in kn]
    rules = {}
    for o in rep.obligations:
        r = rules.setdefault(o["rule"], {"decided": 0, "held": 0})
        r["decided"] += 1
        r["held"] += 1 if o["ok"] else 0
    mod = sys.modules["rules." + prop.lower()]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "configurations": per,
            "obligations_decided": len(rep.obligations),
            "obligations_held": sum(1 for o in rep.obligations if o["ok"]),
            "rules": rules,
            "functions_analysed": len(rep.analysed),
            "functions": sorted(rep.analysed)[:400],
            "program_points": rep.counts.get("program_points", 0),
            "inlined_frames": rep.counts.get("inlined_frames", 0),
            "samples": [o for o in rep.obligations][:60],
            "counts": {k: v for k, v in rep.counts.items() if k not in ("program_points", "inlined_frames")},
        },
        "violations": new, "known_findings": [v["key"] for v in old],
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence"), prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, v["key"], kn[v["key"]]))
    print("%s: %d obligations over %d functions, %d program points; %d violations, %d known (%.1fs)" % (
        prop, len(rep.obligations), len(rep.analysed), rep.counts.get("program_points", 0), len(new), len(old), time.time() - t0))
    if new:
        rp = os.path.join("evidence", prop + ".violation.json")
        with open(os.path.join(VERIF, rp), "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new:
            print("  %s\n    at %s\n    %s" % (v["key"], v["where"], v["detail"]))
            for l in v.get("path") or []:
                print("      via " + l)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


class CoreFacts(Facts):
    def __init__(self, d):
        p = os.path.join(d, "stuart.json")
        if not os.path.exists(p):
            with open(p, "w") as f:
                json.dump({"crate": "stuart", "features": [], "types": [], "impls": [], "traits": [], "bodies": [], "adts": {}}, f)
        super().__init__(d)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
