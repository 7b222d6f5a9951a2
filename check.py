#!/usr/bin/env python3
"""check.py PROPERTY...: decides the properties from /repo's present source.

Exit 0: every obligation of the property holds (or is listed as a known
finding). Exit 1 and a VIOLATION line: some construct breaks it."""
import hashlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("CHOMP_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.setrecursionlimit(20000)


def load_findings():
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("known: "):
                _, prop, key, *rest = l.rstrip("\n").split(" ", 3)
                out[(prop.split("=", 1)[1], key.split("=", 1)[1])] = rest[0] if rest else ""
    return out


def okey(o):
    return "|".join((o["rule"], o["fn"], o["component"])).replace(" ", "")


def main():
    import extract
    pids = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    try:
        d, key = extract.facts(fresh=tier == "thorough")
    except extract.Unbuildable as e:
        print(e)
        print("the tree does not build: no verdict")
        return 3
    from facts import Program
    import registry
    prog = Program(d)
    rc = 0
    if pids == ["all"]:
        pids = sorted(registry.PROPS)
    for pid in pids:
        rc |= check(pid, prog, registry, tier, key, t0)
        t0 = time.time()
    return rc


def check(pid, prog, registry, tier, key, t0):
    import base
    P = registry.PROPS[pid]
    C = base.Ctx(prog)
    C.thorough = tier == "thorough"
    for g in P["groups"]:
        n = len(C.obs)
        try:
            g(C)
        except base.Missing as e:
            # renamed or restructured: nothing can be said, which is not an alarm
            C.record("anchor", str(e), "undecided", "%s is not in the source any more" % e)
        except Exception as e:   # an engine limit is never a verdict
            C.record("engine", getattr(g, "__name__", str(g)), "undecided", "".join(traceback.format_exception_only(type(e), e)).strip())
            if os.environ.get("CHOMP_DEBUG"):
                traceback.print_exc()
    if P.get("post"):
        P["post"](C)
    keep = P.get("rules")
    obs = [o for o in C.obs if keep is None or o["rule"] in ("anchor", "engine") or any(o["rule"] == k or o["rule"].startswith(k + ".") for k in keep)]
    known = load_findings()
    bad, seen, undec = [], [], []
    for o in obs:
        if o["status"] == "violation":
            if (pid, okey(o)) in known:
                seen.append((o, known[(pid, okey(o))]))
            else:
                bad.append(o)
        elif o["status"] == "undecided":
            undec.append(o)
    ok = [o for o in obs if o["status"] == "ok"]
    if not ok and not bad and not undec and not seen:
        bad.append({"rule": "floor", "fn": pid, "component": "", "status": "violation", "loc": "",
                    "detail": "no obligation of this property can be stated on this tree any more"})
    printed = set()
    for o, why in seen:
        if okey(o) not in printed:
            printed.add(okey(o))
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, why, okey(o)))
    byrule = {}
    for o in obs:
        r = byrule.setdefault(o["rule"], {"ok": 0, "violation": 0, "undecided": 0})
        r[o["status"]] += 1
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": P["level"],
        "coverage": {
            "explanation": P["explanation"],
            "facts_key": key,
            "bodies_loaded": len(prog.bodies),
            "functions_analysed": len(C.analysed),
            "functions": sorted({b for b in map(str, C.analysed)})[:400],
            "paths": C.sites,
            "rules": byrule,
            "obligations": len(obs),
            "discharged": len(ok),
            "undecided": [{"rule": o["rule"], "fn": o["fn"], "component": o["component"], "why": o["detail"][:400], "at": o["loc"]} for o in undec],
            "known_findings": [okey(o) for o, _ in seen],
            "unmodelled_calls": C.unmodelled,
            "samples": [{"rule": o["rule"], "fn": o["fn"], "at": o["loc"], "result": o["detail"][:200]} for o in ok[:60]],
        },
        "assumptions": registry.ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated (%d functions, %d paths)" % (
        pid, len(obs), len(ok), len(undec), len(seen), len(bad), len(C.analysed), C.sites))
    for o in undec[:5]:
        print("  undecided: %s (not an alarm) %s" % (okey(o), o["detail"][:160].replace("\n", " ")))
    if os.environ.get("CHOMP_DEBUG"):
        for o in undec:
            print("  undecided", okey(o), o["detail"][:600])
    if not bad:
        return 0
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + ".json")
    with open(rp, "w") as f:
        json.dump({"property": pid, "violations": bad, "repeat": "cd /verif && python3 check.py " + pid}, f, indent=1)
    for o in bad[:20]:
        print("  %s in %s %s at %s\n    %s" % (o["rule"], o["fn"], o["component"], o["loc"], o["detail"][:1200]))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


if __name__ == "__main__":
    sys.exit(main())
