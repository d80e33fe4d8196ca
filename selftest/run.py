"""Runs the checks against small edits of a scratch copy of the repository.
   selftest/run.py [-a] [filter...]   (-a: run every property on every case)"""
import json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def props():
    return sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(VERIF + "/lib/props/c*.py"))


def run_case(case, allp):
    pid, kind, name, edits = case
    d = tempfile.mkdtemp(prefix="simu_mut_", dir="/tmp")
    try:
        shutil.copytree(os.environ.get("SIMU_BASE", "/repo") + "/include", d + "/include")
        shutil.copytree(os.environ.get("SIMU_BASE", "/repo") + "/src", d + "/src")
        for f, old, new in edits:
            path = os.path.join(d, f)
            s = open(path).read()
            if s.count(old) < 1:
                return (case, "EDIT-DOES-NOT-APPLY " + f + ": " + old[:40], {})
            s = s.replace(old, new, 1)
            open(path, "w").write(s)
        env = dict(os.environ, SIMU_REPO=d, SIMU_EVIDENCE=d + "/ev", SIMU_NOCACHE="1")
        todo = [pid] if os.environ.get("OWN") and pid != "*" else props() if allp or kind == "ok" or pid == "*" else [pid]
        r = subprocess.run(["python3-vt", VERIF + "/selftest/multi.py"] + todo, capture_output=True, text=True, env=env, timeout=3000)
        try:
            res = json.loads(r.stdout.strip().split("\n")[-1])
        except Exception:
            return (case, "RUN-FAILED " + (r.stderr or r.stdout)[-600:], {})
        return (case, "", res)
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    allp = "-a" in args
    quiet = "-q" in args
    args = [a for a in args if a != "-q"]
    args = [a for a in args if a != "-a"]
    cases = []
    for f in sorted(glob.glob(HERE + "/cases_*.py")):
        m = __import__(os.path.basename(f)[:-3])
        cases += m.CASES
    cases = [c for c in cases if not args or any(a in c[2] or a == c[0] or a == c[1] for a in args)]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for case, err, res in ex.map(lambda c: run_case(c, allp), cases):
            pid, kind, name, _ = case
            if err:
                print("ERROR %-6s %-40s %s" % (pid, name, err))
                bad += 1
                continue
            hits = {k: v for k, v in res.items() if v[0] != 0}
            if kind == "bug":
                good = res.get(pid, (0,))[0] == 1
            else:
                good = not hits
            bad += not good
            det = "; ".join("%s:%s %s" % (k, v[0], v[1][:2]) for k, v in hits.items())
            if quiet and good:
                continue
            print("%s %-6s %-4s %-44s %s" % ("ok  " if good else "FAIL", pid, kind, name, det[:300 if good else 900]))
    print("cases", len(cases), "unexpected", bad)


main()
