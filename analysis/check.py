#!/usr/bin/env python3
"""Decide one property: python3 analysis/check.py C01 [--tier quick|thorough]"""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts, rules

VERIF = facts.VERIF
EVIDENCE = os.environ.get("DCCRG_EVIDENCE", os.path.join(VERIF, "evidence"))


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            # finding: property=<id> key=<key> ; <what fails>
            if line.startswith("finding: property=%s " % pid) and " key=" in line:
                rest = line.split(" key=", 1)[1]
                key, _, what = rest.partition(" ; ")
                out.append((key.strip(), what.strip()))
    return out


def configs(mod, tier):
    q = getattr(mod, "CONFIGS", [()])
    if tier == "thorough":
        q = list(q) + [c for c in getattr(mod, "THOROUGH_CONFIGS", [("DEBUG",)]) if c not in q]
    return q


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("props." + pid.lower())
    rep = rules.Report(pid)
    stats = {}
    try:
        for cfg in configs(mod, tier):
            prog = facts.load(getattr(mod, "WITNESS", "main.cpp"), tuple(cfg))
            if prog.errors and not getattr(mod, "ALLOW_ERRORS", False):
                raise facts.AnalysisBroken("the tree does not compile: %s" % prog.errors[:3])
            n0 = len(rep.obligations)
            mod.run(rep, prog, tier)
            stats["+".join(cfg) or "default"] = len(rep.obligations) - n0
        if hasattr(mod, "run_once"):
            mod.run_once(rep, tier)
        if len(rep.obligations) < getattr(mod, "MIN_OBLIGATIONS", 1):
            raise facts.AnalysisBroken("only %d obligations (at least %d expected)" % (len(rep.obligations), mod.MIN_OBLIGATIONS))
    except facts.AnalysisBroken as e:
        if not rep.violations:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            sys.exit(2)
        print("note: analysis stopped early: %s" % e)
    known = known_findings(pid)
    kmap = dict(known)
    new, old, seen = [], [], set()
    for v in rep.violations:
        ident = (v["key"], v["where"])
        if ident in seen:
            continue
        seen.add(ident)
        (old if v["key"] in kmap else new).append(v)
    os.makedirs(os.path.join(EVIDENCE), exist_ok=True)
    byrule = {}
    for o in rep.obligations:
        d = byrule.setdefault(o["rule"], {"obligations": 0, "discharged": 0})
        d["obligations"] += 1
        d["discharged"] += 1 if o["ok"] else 0
    sample = {}
    for o in rep.obligations:
        sample.setdefault(o["rule"], o)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.__doc__.strip(),
            "obligations_total": len(rep.obligations),
            "obligations_discharged": sum(1 for o in rep.obligations if o["ok"]),
            "functions_analysed": sorted(rep.funcs),
            "obligations_per_configuration": stats,
            "rules": byrule,
            "examples": list(sample.values())[:40],
            "known_findings_matched": len(old),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(EVIDENCE, pid + ".json"), "w"), indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kmap[v["key"]]))
    print("%s: %d obligations, %d functions, %d violations (%.1f s)" % (pid, len(rep.obligations), len(rep.funcs), len(new), time.time() - t0))
    if new:
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        path = os.path.join(EVIDENCE, "replay", pid + ".txt")
        with open(path, "w") as f:
            for v in new:
                f.write("rule %s\n  obligation: %s\n  at: %s\n  %s\n  key: %s\n" % (v["rule"], v["what"], v["where"], v["detail"], v["key"]))
        for v in new[:20]:
            print("  [%s] %s (%s): %s" % (v["rule"], v["what"], v["where"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
