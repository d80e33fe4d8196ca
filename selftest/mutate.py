"""Generates small edits of the repository's sources and reports the ones no
check notices.   selftest/mutate.py OUT FILE[:first-last]... -- PROP...
Edits the front end rejects are dropped."""
import json, os, re, shutil, subprocess, sys, tempfile, random
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r"\+= ", "-= "), (r"-= ", "+= "),
         (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" < ", " > "), (r" > ", " < "),
         (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-zA-Z(])", ""),
         (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\b0\.f", "1.f"), (r"\b1\.f", "0.f"), (r"\b2\.f", "3.f"), (r"(?<=[(= ])-(?=[a-zA-Z(])", ""),
         (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"\bstd::sin\b", "std::cos"), (r"\bstd::cos\b", "std::sin"),
         (r"(?<=\bi) = 0", " = 1"), (r"\+\+", "--"), (r" = ", " += "), (r"\+= ", "= "), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
         (r"\bfront\b", "back"), (r"\bback\b", "front"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bleft\b", "right"), (r"\bright\b", "left"),
         (r"\blower", "upper"), (r"\bupper", "lower"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\brow\b", "col"), (r"\bcol\b", "row"),
         (r" \? (.*) : (.*);", r" ? \2 : \1;")]


def mutants(f, lo, hi):
    lines = open("/repo/" + f).read().split("\n")
    out = []
    depth = 0
    for n in range(lo - 1, min(hi, len(lines))):
        l = lines[n]
        c = l.split("//")[0]
        if not c.strip() or c.lstrip().startswith(("#", "*", "/*", "template", "typedef", "static_assert", "SIMU_ASSERT", "using", "friend")):
            continue
        for a, b in SWAPS:
            for m in re.finditer(a, c):
                new = c[:m.start()] + re.sub(a, b, m.group(0)) + c[m.end():]
                if new != c:
                    out.append((f, n, l, new))
        if c.rstrip().endswith(";") and c.startswith("    ") and not re.match(r"\s*(return|break|continue|typedef|using|virtual|friend|public)\b", c) and "(" in c or re.match(r"\s+[\w.\[\]\->]+ [-+*/]?= .*;", c):
            out.append((f, n, l, re.match(r"\s*", l).group(0) + ";"))
    seen, uniq = set(), []
    for m in out:
        k = (m[0], m[1], m[3])
        if k not in seen:
            seen.add(k)
            uniq.append(m)
    return uniq


def run(m, props):
    f, n, old, new = m
    d = tempfile.mkdtemp(prefix="simu_mutant_", dir="/tmp")
    try:
        shutil.copytree("/repo/include", d + "/include")
        shutil.copytree("/repo/src", d + "/src")
        p = os.path.join(d, f)
        lines = open(p).read().split("\n")
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        cmd = ["clang++", "-std=c++20", "-fsyntax-only", "-w", "-DSIMU_OS_LINUX", "-I" + d + "/include", VERIF + "/tu/instantiate.cpp"]
        if subprocess.run(cmd, capture_output=True).returncode:
            return m, None
        env = dict(os.environ, SIMU_REPO=d, SIMU_EVIDENCE=d + "/ev", SIMU_NOCACHE="1")
        r = subprocess.run(["python3-vt", VERIF + "/selftest/multi.py"] + props, capture_output=True, text=True, env=env, timeout=1500)
        try:
            return m, json.loads(r.stdout.strip().split("\n")[-1])
        except Exception:
            return m, {"?": (9, [(r.stderr or r.stdout)[-300:]])}
    except subprocess.TimeoutExpired:
        return m, {"?": (8, ["timeout"])}
    finally:
        shutil.rmtree(d)


def main():
    out, args = sys.argv[1], sys.argv[2:]
    i = args.index("--")
    files, props = args[:i], args[i + 1:]
    ms = []
    for f in files:
        f, _, r = f.partition(":")
        lo, _, hi = r.partition("-")
        ms += mutants(f, int(lo or 1), int(hi or 100000))
    n = int(os.environ.get("MUTANTS", "0"))
    if n and len(ms) > n:
        ms = random.Random(int(os.environ.get("SEED", "1"))).sample(ms, n)
    tally = {}
    with open(out, "w") as o, ThreadPoolExecutor(int(os.environ.get("JOBS", "5"))) as ex:
        for m, res in ex.map(lambda m: run(m, props), ms):
            if res is None:
                k = "rejected"
            elif any(v[0] == 1 for v in res.values()):
                k = "caught"
            elif any(v[0] != 0 for v in res.values()):
                k = "BROKEN"
            else:
                k = "MISSED"
            tally[k] = tally.get(k, 0) + 1
            if k in ("BROKEN", "MISSED"):
                o.write("%s %s:%d\n    - %s\n    + %s\n" % (k, m[0].split("/")[-1], m[1] + 1, m[2].strip(), m[3].strip()))
                if k == "BROKEN":
                    o.write("    %s\n" % [v for v in res.values() if v[0]][0][1][:1])
                o.flush()
        o.write("%s\n" % tally)


main()
