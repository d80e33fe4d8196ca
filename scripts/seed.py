"""plants the bugs described in seeds/*.py-like data: applies the edit to a
scratch copy of /repo, records patch.diff, and confirms with --confirm on /repo
itself (build, tests, demo) before undoing it.
   seed.py <id>...        ids from seed_data.py"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seed_data as D

DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++20 -O1 -w -DSIMU_OS_LINUX -I"$PWD/include" "$here/demo.cpp" "$PWD"/src/Simu/math/*.cpp "$PWD"/src/Simu/physics/*.cpp -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    one = "-1" in sys.argv
    ids = [a for a in sys.argv[1:] if a != "-1"] or [s["id"] for s in D.SEEDS]
    for s in D.SEEDS:
        if s["id"] not in ids:
            continue
        out = V + "/seeded/" + s["id"]
        os.makedirs(out, exist_ok=True)
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
        open(out + "/demo.cpp", "w").write(s["demo"])
        open(out + "/demo.sh", "w").write(s.get("demo_sh") or DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        base = sh("bash %s/demo.sh" % out, cwd="/repo")
        try:
            for f, old, new in s["edits"]:
                t = open("/repo/" + f).read()
                assert t.count(old) >= 1, (s["id"], f, old[:50])
                open("/repo/" + f, "w").write(t.replace(old, new, 1))
            open(out + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            r = json.load(open("/tmp/seed_out.json")) if os.path.exists("/tmp/seed_out.json") else {}
            basel = json.load(open("/opt/vp/BASELINE.json"))
            d = sh("bash %s/demo.sh" % out, cwd="/repo")
            allh = sh("SIMU_EVIDENCE=/tmp/seed_ev python3-vt %s/selftest/multi.py %s" % (V, s["property"] if one else " ".join(sorted(x[:-3].upper() for x in os.listdir(V + "/lib/props") if x.startswith("c")))))
        finally:
            sh("git -C /repo checkout -- .")
        try:
            res = json.loads(allh.stdout.strip().split("\n")[-1])
            caught = [k for k, v in res.items() if v[0] == 1]
            broken = [k for k, v in res.items() if v[0] not in (0, 1)]
        except Exception:
            caught, broken = ["?"], [allh.stderr[-300:]]
        passed = str(r)[:0]
        fails = failed(r, basel)
        print(s["id"], s["property"], "build", b.returncode, "tests-failing", fails, "demo base", base.returncode, "patched", d.returncode, "caught by", caught, "broken", broken, flush=True)
        if base.returncode:
            print("   BASE:", (base.stdout + base.stderr)[-400:])
        if b.returncode:
            print("   BUILD:", (b.stdout + b.stderr)[-400:])
    sh("bash /opt/vp/build.sh")


def failed(r, basel):
    def names(x):
        if isinstance(x, dict):
            for k in ("passed", "stable", "tests", "pass"):
                if k in x:
                    return set(x[k] if isinstance(x[k], list) else [n for n, v in x[k].items() if v in (True, "pass", "passed", "ok")])
        return set(x) if isinstance(x, list) else set()
    return sorted(names(basel) - names(r))[:5]


main()
