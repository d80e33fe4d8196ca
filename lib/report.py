"""Common driver: runs the rules of one property, prints the verdict, writes
the evidence and replay files."""
import json, os, sys, time, traceback
import facts
from facts import AnalysisBroken, VERIF, REPO


EVIDENCE = os.environ.get("SIMU_EVIDENCE") or os.path.join(VERIF, "evidence")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []      # dicts
        self.obligations = {}     # rule -> list of instance strings
        self.functions = set()
        self.floors = []
        self.notes = []
        self.known = []

    def ok(self, rule, inst):
        l = self.obligations.setdefault(rule, [])
        if inst not in l:
            l.append(inst)

    def bad(self, rule, where, msg, key=None):
        k = key or "%s|%s" % (rule, where)
        for v in self.violations:
            if v["key"] == k and v["msg"] == msg:
                return
        self.violations.append({"rule": rule, "where": where, "msg": msg, "key": k})

    def check(self, cond, rule, inst, where, msg):
        self.ok(rule, inst)
        if not cond:
            self.bad(rule, where, msg, key="%s|%s" % (rule, inst))

    def floor(self, rule, n):
        self.floors.append((rule, n))

    def analysed(self, *fns):
        for f in fns:
            self.functions.add(f if isinstance(f, str) else "%s (%s:%s)" % (f["name"], f["file"].replace(REPO + "/", ""), f["line"]))

    def builder(self, b):
        for fid in b.inlined:
            f = b.p.functions.get(fid)
            if f:
                self.analysed(f)


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def main(pid, rules, level="other", explanation="", assumptions=()):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    rep = Report(pid)
    try:
        prog = facts.load()
        for r in rules:
            r(prog, rep)
        for rule, n in rep.floors:
            if len(rep.obligations.get(rule, [])) < n:
                raise AnalysisBroken("rule %s: %d instances analysed, at least %d expected" % (rule, len(rep.obligations.get(rule, [])), n))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        if not rep.violations:
            return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        if not rep.violations:
            return 3
    listed = [k for k in known_findings() if k["property"] == pid and k.get("status") == "known"]
    new = []
    for v in rep.violations:
        if any(k["key"] == v["key"] for k in listed):
            rep.known.append(v)
        else:
            new.append(v)
    n_ob = sum(len(v) for v in rep.obligations.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": explanation,
            "obligations": n_ob,
            "discharged": n_ob - len({v["key"] for v in rep.violations}),
            "rules": {k: len(v) for k, v in rep.obligations.items()},
            "instances": {k: v[:60] for k, v in rep.obligations.items()},
            "functions_analysed": len(rep.functions),
            "functions": sorted(rep.functions)[:200],
            "units_parsed": [u.replace(REPO + "/", "") for u in prog.units] if "prog" in dir() or "prog" in locals() else [],
            "notes": rep.notes,
            "known_findings": rep.known,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"rule": v["rule"], "where": v["where"], "msg": v["msg"]} for v in new],
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in rep.known:
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k["where"], k["msg"]))
    print("%s: %d rules, %d obligations, %d functions analysed, %.1fs" % (pid, len(rep.obligations), n_ob, len(rep.functions), time.time() - t0))
    for k, v in sorted(rep.obligations.items()):
        print("   rule %-34s instances %d" % (k, len(v)))
    if new:
        rp = os.path.join(EVIDENCE, "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            for v in new:
                f.write("%s\n  rule: %s\n  %s\n\n" % (v["where"], v["rule"], v["msg"]))
            f.write("re-run: python3-vt /verif/lib/run.py %s\n" % pid)
        for v in new:
            print("  %s: [%s] %s" % (v["where"], v["rule"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
