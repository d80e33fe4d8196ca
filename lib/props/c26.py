"""Same calls, same numbers, same results: nothing outside the history decides."""
import re
import facts
from effects import Effects
from props import c24

EXPLANATION = ("Four kinds of outside influence are searched for in every function of the library as resolved: calls of clocks, random sources, threads and the surroundings of the process, "
               "and reads of measured times; decisions by the order or the value of addresses; visits of what is stored in an order made of addresses (tables keyed by pointers, and "
               "sequences of iterators into them), whose bodies must treat each element alone; and state that outlives the world (globals and function statics that change).")
ASSUMPTIONS = ["hooks of the user on different contacts do not depend on which is called first", "where an allocator places storage is not observable",
               "the standard library's own results do not depend on addresses except in containers keyed by them"]

OUTSIDE = re.compile(r"(^|::)(random_device|default_random_engine|mersenne_twister_engine|linear_congruential_engine|uniform_\w+_distribution|normal_distribution|bernoulli_distribution|"
                     r"(system|steady|high_resolution)_clock|this_thread|thread|jthread|async|hardware_concurrency|mutex|random_shuffle)(::|$)|"
                     r"^(::)?(std::)?(rand|srand|random|drand48|time|clock|clock_gettime|gettimeofday|getenv|getpid|localtime|gmtime|fopen|getrusage|sysconf|sched_getcpu|gettid)$|^std::basic_(if|f)stream")
KEYED = re.compile(r"_Node_(const_)?iterator<|\bstd::(__\w+::)?unordered_(multi)?(map|set)<|\bstd::(multi)?(map|set)<[^,<>]*(<[^<>]*>)?[^,<>]*\*")
BY_ADDRESS = re.compile(r"\b(_Node_(const_)?iterator<(std::pair<)?|unordered_(multi)?(map|set)<)(const )?(std::array<|std::pair<)?[^,<>]*(<[^<>]*>)?[^,<>]*\*|\bstd::(multi)?(map|set)<[^,<>]*(<[^<>]*>)?[^,<>]*\*")
GROW = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "push", "append", "splice", "resize", "assign"}
ORDERED = re.compile(r"^std::(ranges::)?(sort|stable_sort|partial_sort|nth_element|min|max|minmax|min_element|max_element|minmax_element|less|greater|less_equal|greater_equal|lower_bound|upper_bound|make_heap|push_heap)(::operator\(\))?$")


def typ(e):
    return ((e.get("t") or e.get("dt") or "") if isinstance(e, dict) else "").rstrip()


def walk(x, fn):
    stack = [x]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(x)
        elif isinstance(x, dict):
            fn(x)
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "clean", "temp"):
        e = e.get("e")
    return e


def rel(f):
    return f["file"].replace(facts.REPO + "/", "")


def library(prog):
    for f in sorted(prog.functions.values(), key=lambda f: (f["file"], f["line"], f["id"])):
        if not f.get("body") or f.get("implicit") or not f["file"].startswith(facts.REPO + "/"):
            continue
        r = rel(f)
        if "/app/" in r or "/Random." in r or not (r.startswith("include/Simu/") or r.startswith("src/Simu/")):
            continue
        yield f, r


def allocator(f):
    return re.search(r"(Allocator|Block|PoolOf|MemoryPool)\b", f["name"]) or f["file"].endswith("/FreeListAllocator.hpp")


def outside(prog, rep):
    for f, r in library(prog):
        if c24.MEASURES.match(f["name"]):
            continue
        bad = []

        def at(x):
            if x.get("k") not in ("call", "ctor"):
                return
            n = (x.get("callee") or {}).get("name") or ""
            if OUTSIDE.search(n) or n.startswith("simu::Random::"):
                bad.append((n, x.get("l")))
            if re.match(r"simu::TimeEntry::(last|average|max|nMeasures)$", n):
                bad.append((n, x.get("l")))
        walk([f.get("inits") or [], f["body"]], at)
        for n, l in bad:
            rep.check(False, "nothing-from-outside", "%s in %s" % (n, f["name"]), "%s:%s" % (r, l), "%s depends on %s, which is not part of the world's history" % (f["name"], n))
        if not bad:
            rep.ok("nothing-from-outside", f["id"])
        rep.analysed(f)
    rep.floor("nothing-from-outside", 200)


def addresses(prog, rep):
    callers = {}
    hashers = {}
    for f, r in library(prog):
        def at(x, f=f, r=r):
            k = x.get("k")
            what = None
            if k == "bin" and x.get("op") in ("<", ">", "<=", ">=", "<=>"):
                a, b = typ(x.get("a")), typ(x.get("b"))
                if a.endswith("*") and b.endswith("*") and not allocator(f):
                    # a walk through an array compares pointers to the elements it holds; what is
                    # compared for a decision are pointers to objects
                    p = re.sub(r"^const ", "", a[:-1].rstrip())
                    rec = prog.records.get(p) or next((v for n, v in prog.records.items() if n.endswith("::" + p)), None)
                    if p.endswith("*"):
                        pass
                    elif rec is not None and identity(prog, p):
                        what = "%s of two %s" % (x["op"], a)
            elif k == "cast" and x.get("ck") == "PointerToIntegral" and not allocator(f):
                what = "the value of an address"
            elif k == "call":
                c = x.get("callee") or {}
                n = c.get("name") or ""
                if c.get("fn"):
                    callers.setdefault(c["fn"], set()).add(f["id"])
                if n == "std::hash::operator()" and any(typ(a).rstrip("& ").endswith("*") for a in x.get("args") or []):
                    hashers.setdefault(f["id"], (f, r, x.get("l")))
                if ORDERED.match(n) and not allocator(f):
                    args = x.get("args") or []
                    m = ORDERED.match(n).group(2)
                    if m in ("min", "max", "minmax", "less", "greater", "less_equal", "greater_equal"):
                        if args and objects(prog, typ(args[0])):
                            what = "%s of addresses" % n
                    elif args and not any("lambda" in typ(a) or (prog.records.get(typ(a)) or {}).get("name") for a in args[2:]):
                        t = re.search(r"__normal_iterator<([^,]*\*) ?\*|^([^,<>]*\*) ?\*$", typ(args[0]))
                        if t and objects(prog, (t.group(1) or t.group(2))):
                            what = "%s of addresses" % n
            elif k == "ctor" and re.match(r"^std::(less|greater)<", typ(x)):
                pass
            if what:
                rep.check(False, "no-order-of-addresses", "%s in %s" % (what, f["name"]), "%s:%s" % (r, x.get("l")), "%s decides by %s" % (f["name"], what))
        walk([f.get("inits") or [], f["body"]], at)
        rep.ok("no-order-of-addresses", f["id"])
    for fid, (f, r, l) in hashers.items():
        seen, todo, bad = set(), [fid], None
        while todo and not bad:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            G = prog.functions[g]
            if re.search(r"std::hash<?.*::operator\(\)", G["name"]) or "hash" in g and G["name"].endswith("operator()"):
                continue
            up = callers.get(g, set()) - {g}
            if not up and G["name"].startswith("simu::") and "hash" not in G["name"].lower():
                bad = G
            todo.extend(up)
        rep.check(not bad, "no-order-of-addresses", "hash in %s" % f["name"], "%s:%s" % (r, l), "%s decides by the hash of an address" % (bad or f)["name"])
    for n, rec in sorted(prog.records.items()):
        if not n.startswith("simu::"):
            continue
        for d in rec.get("fields") or []:
            t = d.get("type") or ""
            if re.search(r"\bstd::(multi)?(map|set)<[^,<>]*(<[^<>]*>)?[^,<>]*\*", t) and re.search(r"std::less<", t) is not None:
                rep.notes.append("%s::%s is ordered by addresses; every visit of it is judged" % (n, d.get("name")))
    rep.floor("no-order-of-addresses", 200)


IDENTITY = ("PhysicsObject", "Collider", "Node", "RTree", "Material")


def identity(prog, plain):
    """objects that exist on their own, as opposed to elements of arrays of values"""
    return objects(prog, plain + " *")


def objects(prog, t):
    t = re.sub(r"\bconst\b|&", "", t).strip()
    if not t.endswith("*"):
        return False
    p = t[:-1].strip()
    if p.endswith("*"):
        return False
    seen, todo = set(), [p]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        base = re.sub(r"<.*>", "", n).rsplit("::", 1)[-1]
        if base in IDENTITY:
            return True
        todo.extend((prog.records.get(n) or {}).get("bases") or [])
    return False


def owned(prog):
    """classes whose objects belong to one element of a table keyed by addresses"""
    out = set()
    todo = []
    for n, r in prog.records.items():
        for d in r.get("fields") or []:
            t = d.get("type") or ""
            m = n.startswith("simu::") and BY_ADDRESS.search(t)
            if m:
                for q in re.findall(r"simu::[\w:]+", t):
                    if "Status" in q or q in prog.records:
                        if re.search(r"\b%s \*" % re.escape(q), t):
                            continue
                        todo.append(q)
    while todo:
        n = todo.pop()
        if n in out or n not in prog.records:
            continue
        out.add(n)
        r = prog.records[n]
        for d in r.get("fields") or []:
            t = d.get("type") or ""
            inner = re.findall(r"simu::[\w:]+(?:<[^<>]*>)?", t)
            if "unique_ptr" in t:
                for q in inner:
                    todo.append(q)
                    todo.extend(k for k, v in prog.records.items() if q in (v.get("bases") or []))
            elif "*" not in t and "&" not in t:
                todo.extend(inner)
        todo.extend(r.get("bases") or [])
    return out


class Assigns(Effects):
    """assignments the compiler wrote have no code of their own to look into"""

    def of(self, fid, trail=()):
        f = self.p.functions.get(fid)
        if f and f["name"].endswith("::operator=") and not f.get("static"):
            return {"this": "an assignment"}
        return Effects.of(self, fid, trail)


class Each:
    """writes of a piece of code, through everything it calls"""

    def __init__(self, prog):
        self.p = prog
        self.fx = Assigns(prog)
        self.own = owned(prog)
        self.memo = {}

    def writes(self, code, f, trail=()):
        """[(class, field, constant?, how, line, function)] for stores that are not local"""
        out = []
        env = self.fx.env(f)

        def place(e):
            e = strip(e)
            while isinstance(e, dict):
                if e.get("k") == "mem":
                    return e
                if e.get("k") == "idx":
                    e = strip(e.get("a") or e.get("base"))
                elif e.get("k") == "un" and e.get("op") == "*":
                    e = strip(e.get("e"))
                elif e.get("k") == "call" and e.get("obj") is not None and ((e.get("callee") or {}).get("name") or "").startswith("std::"):
                    e = strip(e.get("obj"))
                else:
                    return e
            return e

        def store(e, how, l, const):
            if self.fx.place(e, env) <= {"local"}:
                return
            p = place(e)
            if isinstance(p, dict) and p.get("k") == "mem":
                cls, _, field = (p.get("field") or p.get("name") or "").rpartition("::")
                out.append((cls, field, const, how, l, f))
            else:
                out.append(("", typ(p), const, how, l, f))

        def store_field(o, l, n):
            cls, _, field = (o.get("field") or "").rpartition("::")
            out.append((cls, field, False, ("call of " + n.rsplit("::", 1)[-1], ""), l, f))

        def at(x):
            k = x.get("k")
            if k == "asg":
                v = strip(x.get("b"))
                const = x.get("op", "=") == "=" and isinstance(v, dict) and v.get("k") in ("int", "float", "bool", "null", "lit", "num", "str")
                store(x.get("a"), ("=", repr(v.get("v") if isinstance(v, dict) else None)) if const else (x.get("op", "="), ""), x.get("l"), const)
            elif k == "un" and x.get("op", "")[:2] in ("++", "--"):
                integral = re.search(r"\b(int|long|short|char|unsigned|bool)\b", typ(x.get("e")))
                store(x.get("e"), ("count", ""), x.get("l"), bool(integral))
            elif k == "call":
                c = x.get("callee") or {}
                fid, n = c.get("fn"), c.get("name") or ""
                g = self.p.functions.get(fid)
                if g and g.get("body") and not (n.endswith("::operator=") and x.get("obj") is not None):
                    o = strip(x.get("obj"))
                    if isinstance(o, dict) and not c.get("virtual"):
                        roots = set(self.fx.of(fid))
                        if not roots & {"this", "?"} and not x.get("arrow"):
                            pass
                        elif self.fx.place(o, env) <= {"local"} and not x.get("arrow"):
                            if roots <= {"this"}:
                                return
                        elif not x.get("arrow") and not identity(self.p, re.sub(r"^const |\s*&$", "", typ(o)).strip()):
                            if o.get("k") == "call":
                                o = self.behind(o) or o
                            if o.get("k") == "mem":
                                store_field(o, x.get("l"), n)
                                return
                    for i in [fid] + (self.p.all_overriders(fid) if c.get("virtual") else []):
                        out.extend(self.of(i, trail))
                elif n.startswith("simu::") and n.endswith("::operator=") and isinstance(strip(x.get("obj")), dict):
                    o = strip(x["obj"])
                    o = self.behind(o) or o if o.get("k") == "call" else o
                    if o.get("k") == "mem" and not self.fx.place(o, env) <= {"local"}:
                        store_field(o, x.get("l"), n)
                elif x.get("obj") is not None and n.startswith("std::") and not c.get("const"):
                    last = n.rsplit("::", 1)[-1]
                    if last in GROW or last == "operator=" or last == "swap":
                        store(x["obj"], (last, ""), x.get("l"), False)
                elif n == "std::swap":
                    for a in x.get("args") or []:
                        store(a, ("swap", ""), x.get("l"), False)
        walk(code, at)
        return out

    def behind(self, call):
        """the field an accessor hands out"""
        g = self.p.functions.get((call.get("callee") or {}).get("fn"))
        if not g or not g.get("body") or not (g.get("ret") or "").rstrip().endswith("&"):
            return None
        got = []
        walk(g["body"], lambda y: got.append(strip(y.get("e"))) if y.get("k") == "return" else None)
        return got[0] if len(got) == 1 and isinstance(got[0], dict) and got[0].get("k") == "mem" else None

    def of(self, fid, trail=()):
        if fid in self.memo:
            return self.memo[fid]
        if fid in trail or len(trail) > 30:
            return []
        f = self.p.functions.get(fid)
        if not f or not f.get("body"):
            return []
        out = self.writes([f.get("inits") or [], f["body"]], f, trail + (fid,))
        if not trail:
            self.memo[fid] = out
        return out


def visits(prog, rep):
    E = Each(prog)
    n = 0
    for f, r in library(prog):
        if "std::hash" in f["name"]:
            continue

        def at(x, f=f, r=r):
            nonlocal n
            k = x.get("k")
            if k == "rangefor":
                if not BY_ADDRESS.search(typ(x.get("range"))):
                    return
            elif k in ("for", "while", "do"):
                hit = []
                walk([x.get("init"), x.get("cond"), x.get("inc")], lambda y: hit.append(1) if BY_ADDRESS.search(typ(y)) and y.get("k") in ("call", "var", "mem", "ctor") else None)
                if not hit:
                    return
            else:
                return
            n += 1
            where = "%s:%s" % (r, x.get("l"))
            rep.ok("each-alone", "%s:%s" % (f["id"], x.get("l")))
            consts = {}
            inner = set()
            for v in [x.get("var") or {}]:
                inner.add(v.get("id"))
            walk(x.get("init"), lambda y: inner.update(v.get("id") for v in y.get("vars") or []) if y.get("k") == "decl" else None)
            walk(x.get("body"), lambda y: inner.update(v.get("id") for v in y.get("vars") or []) if y.get("k") == "decl" else None)
            walk([x], lambda y: inner.update([(y.get("var") or {}).get("id"), y.get("rangeVar"), y.get("beginVar"), y.get("endVar")]) if y.get("k") == "rangefor" else None)

            def fail(what, l, why):
                rep.check(False, "each-alone", "%s:%s in %s" % (what, x.get("l"), f["name"]), "%s:%s" % (r, l),
                          "%s visits what is stored in the order of addresses and %s, so the outcome depends on where objects lie" % (f["name"], why))

            depth = []

            def exits(s, nested):
                if isinstance(s, list):
                    for y in s:
                        exits(y, nested)
                    return
                if not isinstance(s, dict):
                    return
                kk = s.get("k")
                if kk == "lambda":
                    return
                if kk == "break" and not nested:
                    fail("stops", s.get("l"), "stops at one of them")
                if kk == "return" and isinstance(strip(s.get("e")), dict) and strip(s["e"]).get("k") not in ("bool", "lit", "int", "null"):
                    fail("returns", s.get("l"), "returns one of them")
                for v in s.values():
                    if isinstance(v, (dict, list)):
                        exits(v, nested or kk in ("rangefor", "for", "while", "do", "switch"))
            exits(x.get("body"), False)

            # what the loop changes outside itself
            def local_store(y):
                kk = y.get("k")
                e = None
                if kk == "asg":
                    e = strip(y.get("a"))
                elif kk == "un" and y.get("op", "")[:2] in ("++", "--"):
                    e = strip(y.get("e"))
                if isinstance(e, dict) and e.get("k") == "var" and e.get("id") not in inner:
                    v = strip(y.get("b")) if kk == "asg" else None
                    const = kk == "asg" and y.get("op", "=") == "=" and isinstance(v, dict) and v.get("k") in ("bool", "int", "float", "lit", "null", "num")
                    whole = (kk == "un" or y.get("op") in ("+=", "|=", "&=")) and re.search(r"\b(int|long|short|char|unsigned|bool)\b", typ(e)) and "*" not in typ(e)
                    if not const and not whole and not BY_ADDRESS.search(typ(e)):
                        fail("keeps", y.get("l"), "keeps %s of them in %s" % ("one" if y.get("op", "=") == "=" else "a sum", e.get("name")))
                if kk == "call" and y.get("obj") is not None:
                    nm = (y.get("callee") or {}).get("name") or ""
                    o = strip(y["obj"])
                    g = prog.functions.get((y.get("callee") or {}).get("fn"))
                    if isinstance(o, dict) and o.get("k") == "var" and not o.get("global") and o.get("id") not in inner and not y.get("arrow") and g and not typ(o).rstrip().endswith("*") \
                            and "lambda" not in nm and "this" in E.fx.of(g["id"]) and not BY_ADDRESS.search(typ(o)):
                        fail("keeps", y.get("l"), "keeps a result of all of them in %s" % o.get("name"))
                    if nm.startswith("std::") and nm.rsplit("::", 1)[-1] in GROW and isinstance(o, dict) and not (o.get("k") == "var" and o.get("id") in inner):
                        if not BY_ADDRESS.search(typ(o)) and not (o.get("k") == "var" and BY_ADDRESS.search(typ(o))):
                            fail("collects", y.get("l"), "collects them in that order")
            walk(x.get("body"), local_store)
            for cls, field, const, how, l, g in E.writes(x.get("body"), f):
                plain = re.sub(r"<.*", "", cls)
                if cls in E.own or plain in {re.sub(r"<.*", "", o) for o in E.own}:
                    continue
                if cls == "" and (BY_ADDRESS.search(field) or g is f):
                    continue
                if BY_ADDRESS.search(field):
                    continue
                if const:
                    consts.setdefault((cls, field), set()).add(how)
                    if len(consts[(cls, field)]) == 1:
                        continue
                if how[0] in GROW and g is f:
                    continue
                if cls.startswith("std::") or not cls:
                    continue
                if c24.MEASURES.match(cls) or c24.MEASURES.match(field):
                    continue
                fail("writes %s" % field, l if g is f else x.get("l"), "%s changes %s::%s for each" % ("itself" if g is f else "through %s" % g["name"], cls, field))
        walk(f["body"], at)
    rep.floor("each-alone", 3)
    rep.notes.append("%d visits in the order of addresses" % n)


def outliving(prog, rep):
    seen = 0
    for f, r in library(prog):
        if c24.MEASURES.match(f["name"]):
            continue

        def at(x, f=f, r=r):
            k = x.get("k")
            if k == "decl":
                for v in x.get("vars") or []:
                    t = (v.get("type") or "").strip()
                    if v.get("static") and not t.startswith("const ") and not v.get("constexpr"):
                        rep.check(False, "nothing-outlives", "%s in %s" % (v.get("name"), f["name"]), "%s:%s" % (r, x.get("l")),
                                  "%s keeps %s from one call to the next, for every world alike" % (f["name"], v.get("name")))
            if k == "asg" or k == "un" and x.get("op", "")[:2] in ("++", "--"):
                e = strip(x.get("a") if k == "asg" else x.get("e"))
                while isinstance(e, dict) and e.get("k") in ("idx", "mem") and not e.get("arrow"):
                    e = strip(e.get("a") if e["k"] == "idx" else e.get("base"))
                if isinstance(e, dict) and e.get("k") == "var" and e.get("global"):
                    rep.check(False, "nothing-outlives", "%s in %s" % (e.get("name"), f["name"]), "%s:%s" % (r, x.get("l")),
                              "%s writes %s, which every world shares" % (f["name"], e.get("name")))
        walk(f["body"], at)
        rep.ok("nothing-outlives", f["id"])
    rep.floor("nothing-outlives", 200)


RULES = [outside, addresses, visits, outliving]
