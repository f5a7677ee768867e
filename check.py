#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough]: decide a property on /repo's current tree."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(40000)
import rl  # noqa: E402
import ai  # noqa: E402
import build  # noqa: E402
import rules  # noqa: E402

ASSUME = {
    "std": "the models of the standard library, tokio and cookie calls in engine/models.py describe what those calls do",
    "mir": "rustc's MIR (nightly, -Zmir-opt-level=0 as dumped by driver/main.rs) has the meaning of the source the stable compiler builds",
}


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    R = rules.load()
    fs = R[pid]
    cfgs = []
    per = []
    for f, cq, ct in fs:
        cs = list(cq)
        if tier == "thorough":
            cs = list(ct) if ct is not None else list(dict.fromkeys(list(cq) + (list(build.CONFIGS) if "default" in cq else [])))
        per.append((f, cs))
        cfgs += [c for c in cs if c not in cfgs]
    c = rl.Ctx(pid, tier, cfgs)
    for f, cs in per:
        for cfg in cs:
            c.cfg = cfg
            c.merged = False
            try:
                f(c)
            except rl.Undecided as e:
                c.und("analysis", str(e), "not decided")
            except ai.Budget as e:
                c.und("analysis", f.__name__, "analysis budget exceeded: %s" % e)
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)[-1]
                c.und("analysis", f.__name__, "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    if os.environ.get("VERIF_VOCABULARY"):
        with open(os.environ["VERIF_VOCABULARY"], "a") as fh:
            fh.write("".join(x + "\n" for x in sorted(c.foreign)))
    bad = [o for o in c.obl if o["verdict"] == "violated"]
    und = [o for o in c.obl if o["verdict"] == "undecided"]
    ok = [o for o in c.obl if o["verdict"] == "holds"]
    kf = known(pid)
    new = []
    for o in bad:
        key = "%s | %s" % (o["construct"], o["rule"])
        if key in kf:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, key, o["detail"]))
        else:
            new.append(o)
    fns = sorted(c.fns)
    spans = {}
    for f in fns:
        for p in c.progs.values():
            if f in p.fns:
                spans[f] = p.fns[f]["span"]
    rulesum = {}
    for o in c.obl:
        k = rulesum.setdefault(o["rule"], {"holds": 0, "violated": 0, "undecided": 0, "constructs": []})
        k[o["verdict"]] += o["times"]
        if o["construct"] not in k["constructs"]:
            k["constructs"].append(o["construct"])
    EVD = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(EVD, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Path-partitioned abstract interpretation (value provenance, branch facts, loop fixpoints) of the MIR of the "
                           "listed functions in the listed feature configurations; every rule below was evaluated on every abstract exit, "
                           "event and loop it applies to. Nothing of the program is executed.",
            "configurations": cfgs,
            "functions_analysed": len(fns),
            "functions": [{"fn": f, "at": spans.get(f, "")} for f in fns],
            "abstract_blocks_visited": c.sites,
            "obligations": sum(o["times"] for o in c.obl), "discharged": sum(o["times"] for o in ok), "undecided": sum(o["times"] for o in und),
            "rules": rulesum,
            "undecided_items": und,
            "tree_sha256": c.tree,
            "samples": ok[:3],
        },
        "assumptions": list(ASSUME.values()),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVD, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    rp = os.path.join(EVD, pid + ".violation.json")
    if os.path.exists(rp):
        os.remove(rp)
    for o in und:
        print("UNDECIDED property=%s [%s] %s: %s: %s" % (pid, o["config"], o["construct"], o["rule"], o["detail"][:300]))
    if new:
        with open(rp, "w") as fh:
            json.dump({"property": pid, "violations": new, "reproduce": "python3 %s %s" % (os.path.abspath(__file__), pid)}, fh, indent=1)
        for o in new:
            print("  [%s] %s: %s: %s" % (o["config"], o["construct"], o["rule"], o["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if not ok:
        print("property=%s: no violation found, but nothing could be decided (see UNDECIDED above)" % pid)
        return 0
    print("property=%s holds: %d obligations, %d undecided, %d functions, %.1fs" % (pid, sum(o["times"] for o in ok), len(und), len(fns), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
