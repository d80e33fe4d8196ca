"""Assertions and profiling never change what the library does."""
import re
import effects, facts, laws

EXPLANATION = ("The library is read in three configurations: as built, without the profiler, and with assertions compiled out. Function by function the resolved "
               "code of the configurations is compared after removing assertions and measurements, and must be the same; the condition of every assertion is "
               "shown to write nothing by an interprocedural effect analysis; measuring code writes only measures, and nothing else reads them.")
ASSUMPTIONS = ["standard library members marked const, and its accessors, write nothing", "assertions have the form of the library's macro: a throw of its exception under a negated condition"]
MEASURES = re.compile(r"^simu::(Profiler|TimeEntry|ScopedTimer|TimeEntry::ScopedTimer)(::|$)")
CONFIGS = [("without profiler", ["-DSIMU_NO_PROFILER"]), ("without assertions", ["-DNDEBUG", "-DSIMU_NO_ASSERT"]),
           ("without both", ["-DSIMU_NO_PROFILER", "-DNDEBUG", "-DSIMU_NO_ASSERT"])]


def is_assert(s):
    if s.get("k") != "if" or s.get("else"):
        return False
    t = s.get("then") or {}
    while t.get("k") == "block" and len(t.get("c") or []) == 1:
        t = t["c"][0]
    return t.get("k") == "expr" and (t.get("e") or {}).get("k") == "throw" and "Exception" in (t["e"].get("tt") or "")


def void_expr(s):
    e = s.get("e") or {}
    return s.get("k") == "expr" and e.get("t") == "void" and e.get("k") == "cast"


def measured(e):
    """an expression made of measuring code only"""
    if not isinstance(e, dict):
        return False
    if e.get("k") in ("cast", "paren", "cleanup"):
        return measured(e.get("e"))
    if e.get("k") == "call":
        return bool(MEASURES.match((e.get("callee") or {}).get("name") or ""))
    if e.get("k") == "asg":
        a = e.get("a") or {}
        return a.get("k") == "mem" and bool(MEASURES.match(a.get("field") or ""))
    return False


def dropped(s):
    k = s.get("k")
    if is_assert(s) or void_expr(s):
        return True
    if k == "expr" and measured(s.get("e")):
        return True
    if k == "decl":
        vs = s.get("vars") or [s]
        return all(re.search(r"\bScopedTimer\b", v.get("type") or v.get("t") or "") for v in vs)
    return k == "null" or k == "empty"


class Canon:
    """code without places, with variables numbered as they appear"""
    def __init__(self):
        self.ids = {}

    def of(self, x):
        if isinstance(x, list):
            out = []
            for y in x:
                if isinstance(y, dict) and dropped(y):
                    continue
                if isinstance(y, dict) and y.get("k") == "block":
                    # a block is its statements
                    out += self.of(y.get("c") or [])
                    continue
                out.append(self.of(y))
            return out
        if isinstance(x, dict):
            if dropped(x) or x.get("k") == "block" and not self.of(x.get("c") or []):
                return ("block", ())
            if x.get("k") == "block":
                return ("block", tuple(map(str, self.of(x.get("c") or []))))
            out = []
            for k in sorted(x):
                v = x[k]
                if k in ("l", "line", "col", "file"):
                    continue
                if k in ("id", "rangeVar", "beginVar", "endVar") and isinstance(v, int):
                    v = self.ids.setdefault(v, len(self.ids))
                    out.append((k, v))
                elif isinstance(v, (dict, list)):
                    out.append((k, self.of(v)))
                elif isinstance(v, str):
                    # places in the names of lambdas shift with nothing but are no behaviour
                    out.append((k, re.sub(r"lambda at [^)]*\)", "lambda)", v)))
                else:
                    out.append((k, v))
            return tuple(out)
        return x


def canon(f):
    return str(Canon().of([{"k": "x", "inits": f.get("inits") or [], "c": [f["body"]]}]))


def same_code(prog, rep):
    for name, flags in CONFIGS:
        try:
            other = facts.load(flags)
        except facts.AnalysisBroken as e:
            m = re.search(r"(\S+?):(\d+):\d+: error: (.*)", str(e))
            rep.check(False, "builds", name, "%s:%s" % (m.group(1), m.group(2)) if m else name, "the library does not compile %s: %s" % (name, m.group(3) if m else str(e)[:200]))
            continue
        rep.ok("builds", name)
        n = 0
        for fid, f in prog.functions.items():
            if not f.get("body") or not f["file"].startswith(facts.REPO + "/") or MEASURES.match(f["name"]) or f["name"].startswith("simu::Exception"):
                continue
            g = other.functions.get(fid)
            where = "%s:%s" % (f["file"].replace(facts.REPO + "/", ""), f["line"])
            if g is None or not g.get("body"):
                # only asked for by an assertion or a measurement
                continue
            n += 1
            rep.analysed(f)
            if canon(f) != canon(g):
                rep.check(False, "same-code", "%s %s" % (f["name"], name), where, "%s does something else %s" % (f["name"], name))
        # what the other configuration adds
        for fid, g in other.functions.items():
            if g.get("body") and g["file"].startswith(facts.REPO + "/") and not (prog.functions.get(fid) or {}).get("body") and not MEASURES.match(g["name"]):
                rep.check(False, "same-code", "%s %s" % (g["name"], name), "%s:%s" % (g["file"].replace(facts.REPO + "/", ""), g["line"]), "%s only exists %s" % (g["name"], name))
        for fid, r in other.records.items():
            q = prog.records.get(fid)
            if q and not MEASURES.match(r["plain"]) and q["file"].startswith(facts.REPO + "/"):
                def shape(z):
                    return str(Canon().of([{k: v for k, v in w.items() if k != "id"} for w in z["fields"]])) + str(z["bases"])
                if shape(q) != shape(r):
                    rep.check(False, "same-code", "%s %s" % (r["name"], name), "%s:%s" % (q["file"].replace(facts.REPO + "/", ""), q["line"]), "%s has other members %s" % (r["name"], name))
        rep.ok("same-code", "%d functions %s" % (n, name))
        if n < 100:
            raise facts.AnalysisBroken("only %d functions to compare" % n)
    rep.floor("builds", 3)


def walk(x, fn):
    if isinstance(x, list):
        for y in x:
            walk(y, fn)
    elif isinstance(x, dict):
        fn(x)
        for v in x.values():
            if isinstance(v, (dict, list)):
                walk(v, fn)


def pure_asserts(prog, rep):
    ef = effects.Effects(prog)
    n = [0]
    for f in prog.functions.values():
        if not f.get("body") or not f["file"].startswith(facts.REPO + "/"):
            continue

        def at(s):
            if s.get("k") == "if" and is_assert(s):
                w = ef.expr(f, s.get("cond"))
                where = "%s:%s" % (f["file"].replace(facts.REPO + "/", ""), s.get("l"))
                rep.check(not w, "assertion-writes-nothing", where, where, "the condition of an assertion in %s changes something: %s" % (f["name"], "; ".join(sorted(set(w.values())))[:300]))
        walk(f["body"], at)
    rep.floor("assertion-writes-nothing", 15)


def strip(a):
    while isinstance(a, dict) and a.get("k") in ("cast", "paren"):
        a = a.get("e")
    return a


def measures(prog, rep):
    for f in prog.functions.values():
        if not f.get("body") or not f["file"].startswith(facts.REPO + "/"):
            continue
        inside = bool(MEASURES.match(f["name"]))
        where = "%s:%s" % (f["file"].replace(facts.REPO + "/", ""), f["line"])
        if inside:
            rep.ok("measuring-writes-measures", f["name"])

        written = set()

        def at(x):
            k = x.get("k")
            if inside and k == "asg":
                a = x.get("a")
                while isinstance(a, dict) and a.get("k") in ("cast", "paren", "un", "index"):
                    a = a.get("e") or a.get("a") or a.get("base")
                if isinstance(a, dict) and a.get("k") == "mem" and not MEASURES.match(a.get("field") or ""):
                    rep.check(False, "measuring-writes-measures", f["name"], where, "%s writes %s" % (f["name"], a.get("field")))
            if inside and k == "call":
                c = (x.get("callee") or {}).get("name") or ""
                if c.startswith("simu::") and not MEASURES.match(c):
                    rep.check(False, "measuring-writes-measures", f["name"], where, "%s calls %s" % (f["name"], c))
            if not inside and k == "call":
                c = (x.get("callee") or {}).get("name") or ""
                if re.match(r"simu::TimeEntry::(last|average|max|nMeasures)$", c):
                    rep.check(False, "measures-not-read", f["name"], "%s:%s" % (where.rsplit(":", 1)[0], x.get("l")), "%s depends on a measured time" % f["name"])
            if not inside and k == "asg" and x.get("op", "=") == "=":
                written.add(id(strip(x.get("a"))))
            if not inside and k == "mem" and MEASURES.match(x.get("field") or "") and id(x) not in written and "TimeEntry" not in (x.get("t") or ""):
                rep.check(False, "measures-not-read", f["name"], "%s:%s" % (where.rsplit(":", 1)[0], x.get("l")), "%s depends on a measure" % f["name"])
        walk(f["body"], at)
        if not inside:
            rep.analysed(f)
    rep.ok("measures-not-read", "all other functions")
    rep.floor("measuring-writes-measures", 3)


RULES = [same_code, pure_asserts, measures, lambda prog, rep: laws.check(rep, "timer")]
