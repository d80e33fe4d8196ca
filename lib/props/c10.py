"""C10: falling asleep and waking up."""
from island import *
from props.c09 import field_path
from tree import Thr

EXPLANATION = (
    "Flow facts over World::step (the immobility clock of each body, the comparisons that guard putting it to sleep, the flag that "
    "tells whether a group has an awake member and the waking of its members), over every public operation of a body that writes "
    "its velocity, and over the unlinking of dead constraints; plus an inventory of all writes of the sleep state.")
ASSUMPTIONS = ["speeds are compared as numbers (not NaN)"]

ASLEEP = "simu::Body::isAsleep_"


def is_false(t):
    return t in (("lit", False), ("lit", 0), ("zero",))


class Clock(QFlow):
    """the immobility clock and falling asleep, per body of the world"""
    both = ("lin", "ang", "on", "clock", "slept", "long", "exact")
    preds = ("clocked",)

    def __init__(self, p, ow, dt, timef):
        self.p, self.ow, self.dt, self.timef = p, ow, dt, timef
        self.writes, self.sleeps, self.ends = [], [], []

    def mine(self, t):
        k = owner_key(self.ow, deep_strip(t))
        return k is not None and k[0] == self.bodies and k[1][0] == "elem"

    def speed(self, t):
        """(what, squared, absolute) for an expression of the speed of the body"""
        t = deep_strip(t)
        names = set()
        part = None
        x = t
        absolute = False
        squared = False
        while isinstance(x, tuple):
            if x[0] == "call":
                n = x[1].split("::")[-1]
                if n in ("abs", "fabs", "fabsf"):
                    absolute = True
                elif n in ("norm", "length", "hypot"):
                    absolute = True
                elif n in ("normSquared",):
                    squared = absolute = True
                elif n in ("linear", "velocity"):
                    part = "lin"
                elif n in ("angular", "angularVelocity"):
                    part = "ang"
                elif n == "dot" and len(x) >= 5 and deep_strip(x[3]) == deep_strip(x[4]):
                    squared = absolute = True
                args = [y for y in x[2:] if isinstance(y, tuple)]
                if not args:
                    return None
                x = deep_strip(args[0])
                continue
            if x[0] == "op" and x[1] == "*" and deep_strip(x[2]) == deep_strip(x[3]):
                squared = absolute = True
                x = deep_strip(x[2])
                continue
            if x[0] == "fld":
                f = x[2].split("::")[-1]
                if f.startswith("linear"):
                    part = "lin"
                if f.startswith("angular"):
                    part = "ang"
                if x[2] == "simu::Body::velocity_":
                    return (part, squared, absolute) if self.mine(x[1]) and part else None
                x = deep_strip(x[1])
                continue
            return None
        return None

    def threshold(self, t):
        """(which threshold, squared)"""
        t = deep_strip(t)
        if isinstance(t, tuple) and t[0] == "op" and t[1] == "*" and deep_strip(t[2]) == deep_strip(t[3]):
            r = self.threshold(t[2])
            return (r[0], True) if r and not r[1] else None
        if isinstance(t, tuple) and t[0] == "call" and t[1].split("::")[-1] in ("square", "squared") and len(t) > 3:
            r = self.threshold(t[3])
            return (r[0], True) if r and not r[1] else None
        if setting(self.p, t, ("angular", "sleep")):
            return ("ang", False)
        if setting(self.p, t, ("velocity", "sleep")):
            return ("lin", False)
        return None

    def loop_iter(self, L, st):
        if L.elem is not None and self.mine(L.elem):
            return (frozenset(f for f in st if f[0] not in ("lin", "ang", "clock", "slept", "long", "exact")),)
        return QFlow.loop_iter(self, L, st)

    def iter_end(self, L, st):
        if L.elem is not None and self.mine(L.elem) and any(f[0] in ("clock", "slept", "long") for f in st):
            self.ends.append((L, st))
        return QFlow.iter_end(self, L, st)

    def loop_exit(self, L, st):
        out = QFlow.loop_exit(self, L, st)
        if L.elem is not None and self.mine(L.elem):
            return [frozenset(f for f in s if f[0] not in ("lin", "ang", "clock", "slept", "long", "exact")) for s in out]
        return out

    def holds(self, pred, elem, st):
        return not self.mine(elem) or any(f[0] == "clock" for f in st)

    def assume(self, term, truth, st, atom):
        neg, t = canon_cmp(term)
        if neg:
            truth = not truth
        if t[0] == "op" and t[1] in ("<",):
            a, b = t[2], t[3]
            sa, tb = self.speed(a), self.threshold(b)
            if sa and tb and sa[0] == tb[0]:
                ok = sa[2] and sa[1] == tb[1]
                if not ok:
                    self.badcmp.append((atom, "the %s is compared with the wrong threshold, or with its sign" % ("speed" if sa[0] == "lin" else "rotation speed")))
                    return st
                return st | {(sa[0], truth)} if (sa[0], not truth) not in st else None
            ta, sb = self.threshold(a), self.speed(b)
            if ta and sb and ta[0] == sb[0]:          # threshold < speed
                if not (sb[2] and sb[1] == ta[1]):
                    self.badcmp.append((atom, "a speed is compared with the wrong threshold, or with its sign"))
                    return st
                return st | {(sb[0], not truth)} if (sb[0], truth) not in st else None
            da, db = deep_strip(a), deep_strip(b)
            ist = lambda x: isinstance(x, tuple) and x[0] == "fld" and x[2] == self.timef and self.mine(x[1])
            isd = lambda x: setting(self.p, x, ("sleep", "delay")) or setting(self.p, x, ("inactivity",))
            if ist(da) and isd(db):
                return st | {("long", not truth)} if ("long", truth) not in st else None
            if isd(da) and ist(db):
                return st | {("long", truth)} | ({("exact",)} if not truth else set())
        if setting(self.p, t, ("sleeping",)) or setting(self.p, t, ("enable", "sleep")):
            return st | {("on", truth)} if ("on", not truth) not in st else None
        return st

    def event(self, ev, st):
        o = deep_strip(ev.obj)
        if ev.kind == "write" and ev.name != "init" and isinstance(o, tuple) and o[0] == "fld" and self.mine(o[1]):
            a = deep_strip(ev.args[-1]) if ev.args else None
            if o[2] == self.timef:
                kind = "other"
                if ev.name == "+=" and a == self.dt:
                    kind = "add"
                elif ev.name == "=" and (a in (("lit", 0), ("lit", 0.0), ("zero",))):
                    kind = "reset"
                elif ev.name == "=" and isinstance(a, tuple) and a[0] == "op" and a[1] == "+" and {deep_strip(a[2]), deep_strip(a[3])} == {o, self.dt}:
                    kind = "add"
                self.writes.append((ev, kind, st))
                st = frozenset(f for f in st if f[0] not in ("long",))
                return (st | {("clock", kind)},)
            if o[2] == ASLEEP:
                if is_false(a):
                    return (frozenset(f for f in st if f[0] != "slept"),)
                self.sleeps.append((ev, st))
                return (st | {("slept",)},)
        return (st,)


class Wake(QFlow):
    """members of a group: an awake one wakes all"""
    preds = ("woken",)
    both = ("flag", "acc", "pend", "is", "miss")

    def __init__(self, p, g):
        self.p, self.g = p, g
        self.ends, self.uses = [], []

    def key(self, e):
        return ("slot",) if self.g.elem(e) == "B" else e

    def flagterm(self, t):
        t = deep_strip(t)
        return isinstance(t, tuple) and (t in self.flags)

    def node(self, n, S):
        if isinstance(n, If) and not n.els and n.then and all(isinstance(x, (Thr, Ev)) for x in n.then) and any(isinstance(x, Thr) for x in n.then):
            return {"n": S}
        return QFlow.node(self, n, S)

    def loop_iter(self, L, st):
        if L.elem is not None and self.key(L.elem) == ("slot",):
            return (frozenset(f for f in st if f[0] != "woken"),)
        if L is self.group:
            return (frozenset(),)
        return (frozenset(f for f in st if f[0] not in ("acc", "pend", "asl")),)

    def iter_end(self, L, st):
        self.ends.append((L, st))
        if L.elem is not None and self.key(L.elem) == ("slot",):
            return (st if ("woken",) in st else st | {("miss", "woken", ("slot",))},)
        return (frozenset(f for f in st if f[0] not in ("acc", "pend", "asl")),)

    def loop_enter(self, L, st):
        self.ends.append((L, st))
        if L.elem is not None and self.key(L.elem) == ("slot",):
            return (frozenset(f for f in st if f[0] != "miss"),)
        return (st,)

    def loop_break(self, L, st):
        if L.elem is not None and self.key(L.elem) == ("slot",):
            return (st | {("miss", "woken", ("slot",))},)
        return (st,)

    def loop_exit(self, L, st):
        if L.elem is not None and self.key(L.elem) == ("slot",):
            ok = L.cover == "full" and ("miss", "woken", ("slot",)) not in st
            st = frozenset(f for f in st if f[0] not in ("miss", "woken"))
            return (st | {("allwoken",)} if ok else st,)
        return (st,)

    def asleep_of(self, t):
        """body x for the term x.isAsleep_"""
        t = deep_strip(t)
        return t[1] if isinstance(t, tuple) and t[0] == "fld" and t[2] == ASLEEP else None

    def assume(self, term, truth, st, atom):
        t = term
        while isinstance(t, tuple) and t[0] == "not":
            t, truth = t[1], not truth
        if self.flagterm(t):
            if ("flag", not truth) in st and len([f for f in st if f[0] == "flag"]) == 1:
                pass
            return frozenset(f for f in st if f[0] != "flag") | {("flag", truth)}
        x = self.asleep_of(t)
        if x is not None:
            if truth:
                return frozenset(f for f in st if f != ("pend", x)) | {("asl", x)}
            return st
        return st

    def event(self, ev, st):
        g = self.g
        o = deep_strip(ev.obj)
        short = ev.name.split("::")[-1]
        if ev.kind == "call" and g.cont(ev.obj) == "B" and short in ("emplace_back", "push_back"):
            x = deep_strip(ev.args[0])
            st = frozenset(f for f in st if f != ("allwoken",))
            if ("acc", x) in st or ("asl", x) in st:
                return (st,)
            return (st | {("pend", x)},)
        if ev.kind == "write" and self.flagterm(o):
            a = deep_strip(ev.args[-1])
            st = frozenset(f for f in st if f[0] != "flag")
            if is_false(a):
                return (st,)
            if a in (("lit", True), ("lit", 1)):
                return (frozenset(f for f in st if f[0] != "pend") | {("flag", True)},)
            for x in disjuncts(a) if ev.name in ("=", "init") else disjuncts(a):
                while isinstance(x, tuple) and x[0] == "op" and x[1] == "!=" and is_false(x[3]):
                    x = x[2]
                if isinstance(x, tuple) and x[0] == "not":
                    y = self.asleep_of(x[1])
                    if y is not None:
                        keeps = ev.name in ("|=",) or any(self.flagterm(d) for d in disjuncts(a))
                        if keeps:
                            st = frozenset(f for f in st if f != ("pend", y)) | {("acc", y)}
            return (st,)
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] == ASLEEP and g.elem(o[1]) == "B" and is_false(deep_strip(ev.args[-1])):
            return (st | {("woken",)},)
        if ev.kind == "call" and (is_solver(self.p, ev) and short != "isActive" or short == "advance" and g.elem(ev.obj) == "P"):
            self.uses.append((ev, st))
        return (st,)


def disjuncts(t):
    t = deep_strip(t)
    if isinstance(t, tuple) and t[0] == "op" and t[1] in ("||", "|"):
        return disjuncts(t[2]) + disjuncts(t[3])
    if isinstance(t, tuple) and t[0] == "call" and t[1] == "cast" and len(t) > 2:
        return disjuncts(t[-1])
    return [t]


class Vel(QFlow):
    """after writing its velocity, a body is awake"""
    both = ("moved",)

    def event(self, ev, st):
        o = deep_strip(ev.obj)
        path = field_path(o) if isinstance(o, tuple) else ()
        if path and path[0] == "simu::Body::velocity_" and root_this(o) and ev.name != "init":
            short = ev.name.split("::")[-1]
            if ev.kind == "write" or ev.kind == "call" and short not in ("linear", "angular"):
                self.n += 1
                return (st | {("moved",)},)
        if ev.kind == "write" and isinstance(o, tuple) and o == ("fld", ("this",), ASLEEP):
            a = deep_strip(ev.args[-1])
            return (st | {("awake",)},) if is_false(a) else (frozenset(f for f in st if f != ("awake",)),)
        return (st,)


def root_this(o):
    while isinstance(o, tuple) and o[0] in ("fld", "idx", "elem", "sel", "copy"):
        o = o[1]
    return o == ("this",)


class Unlink(QFlow):
    """bodies that lose a constraint are woken"""
    both = ("un",)
    preds = ()

    def __init__(self):
        self.ends = []
        self.n = 0

    def event(self, ev, st):
        o = deep_strip(ev.obj)
        c = None
        if ev.kind == "call" and ev.name.split("::")[-1] in ("erase", "remove", "remove_if", "erase_if"):
            c = deep_strip(ev.obj) if ev.obj is not None else deep_strip(ev.args[0]) if ev.args else None
        if isinstance(c, tuple) and c[0] == "fld" and c[2] in self.lists:
            self.n += 1
            return (st if ("wk", c[1]) in st else st | {("un", c[1], ev.where())},)
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] == ASLEEP and is_false(deep_strip(ev.args[-1])):
            return (frozenset(f for f in st if not (f[0] == "un" and f[1] == o[1])) | {("wk", o[1])},)
        return (st,)

    def loop_iter(self, L, st):
        return (frozenset(),)

    def iter_end(self, L, st):
        self.ends.append(st)
        return (frozenset(),)

    def loop_break(self, L, st):
        self.ends.append(st)
        return (frozenset(),)


def rules(p, rep):
    ow = owners(p)
    bodies = [o for o in ow if o.cls == "simu::Body"][0]
    g = Group(p)
    b, t, ctx = tree_of(p, rep, "simu::World::step", opaque=opaque_solver(p), key="c06")
    fn = p.fn("simu::World::step")
    dt = ("param", fn["params"][0]["name"])
    # --- clock
    timef = None
    floats = ["simu::Body::" + f["name"] for f in p.rec("simu::Body")["fields"] if f["type"] == "float"]
    wr = {}
    for ev, _ in events(t):
        o = deep_strip(ev.obj)
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] in floats:
            wr.setdefault(o[2], []).append(ev)
    if len(wr) != 1:
        raise AnalysisBroken("the immobility clock of a body was not found: %s" % list(wr))
    timef = list(wr)[0]
    fl = Clock(p, ow, dt, timef)
    fl.bodies, fl.badcmp = bodies.field, []
    ex = fl.run(t, frozenset([frozenset()]))
    for atom, msg in fl.badcmp:
        w = "%s:%s" % (rel(atom.ctx.file), atom.line)
        rep.check(False, "speed-against-threshold", w, w, msg)
    for ev, kind, st in fl.writes:
        i = ev.where()
        rep.check(("on", True) in st, "clock-only-when-enabled", i, i, "the immobility clock runs although sleeping may be disabled")
        if kind == "add":
            rep.check(("lin", True) in st and ("ang", True) in st, "clock-runs-only-when-slow", i, i,
                      "the immobility clock advances although the speed or the rotation speed may not be below its threshold")
        elif kind == "reset":
            rep.check(("lin", False) in st or ("ang", False) in st, "clock-resets-only-when-fast", i, i, "the immobility clock restarts although the body may be slow enough")
        else:
            rep.check(False, "clock-counts-time", i, i, "the immobility clock does not advance by the time step")
        rep.check(not any(f[0] == "clock" for f in st), "clock-once", i, i, "the immobility clock may advance twice in one step")
    for ev, st in fl.sleeps:
        i = ev.where()
        rep.check(("on", True) in st and ("long", True) in st, "sleep-after-delay", i, i, "a body may be put to sleep before it was immobile for the configured delay, or with sleeping disabled")
        rep.check(any(f[0] == "clock" for f in st), "sleep-after-delay", "clock first " + i, i, "a body is put to sleep before its immobility clock was updated")
    for L, st in fl.ends:
        w = L.where()
        if ("on", True) in st:
            rep.check(any(f[0] == "clock" for f in st), "clock-updated-each-step", w, w, "the immobility clock of a body may not be updated in a step")
            rep.check(("slept",) in st or ("long", False) in st, "sleeps-when-due", w, w, "a body that was immobile for the configured delay may not be put to sleep")
    # --- group
    flags = set()
    for ev, _ in events(t):
        if ev.kind == "write":
            for x in disjuncts(deep_strip(ev.args[-1])) if ev.args else []:
                if isinstance(x, tuple) and x[0] == "not" and isinstance(deep_strip(x[1]), tuple) and deep_strip(x[1])[0] == "fld" and deep_strip(x[1])[2] == ASLEEP:
                    flags.add(deep_strip(ev.obj))
    bools = {g.rec["plain"] + "::" + f["name"] for f in g.rec["fields"] if f["type"] == "bool"}
    for ev, _ in events(t):
        o = deep_strip(ev.obj)
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] in bools:
            flags.add(o)
    wk = Wake(p, g)
    wk.flags = flags
    wk.group = None
    for n, ps in walk(t):
        if isinstance(n, Loop) and any(e.kind == "call" and g.cont(e.obj) == "B" and e.name.endswith("_back") for e, _ in events(n.body)) and not [x for x in ps if isinstance(x, Loop)]:
            wk.group = n
    if wk.group is None:
        raise AnalysisBroken("the loop over groups was not found")
    wk.run(t, frozenset([frozenset()]))
    n = 0
    for L, st in wk.ends:
        pend = [f[1] for f in st if f[0] == "pend"]
        if any(f[0] in ("pend", "acc", "asl") for f in st):
            n += 1
            rep.check(not pend, "awake-member-noticed", L.where(), L.where(), "an awake body may join a group without the group being marked awake")
    for ev, _ in events(wk.group.body):
        if ev.kind == "call" and g.cont(ev.obj) == "B" and ev.name.endswith("_back"):
            rep.ok("awake-member-noticed", "joins at " + ev.where())
    for ev, st in wk.uses:
        i = "%s at %s" % (ev.name.split("::")[-1], ev.where())
        rep.check(("allwoken",) in st or ("flag", False) in st, "awake-member-wakes-all", i, ev.where(), "a group with an awake body is solved before all of its bodies were woken")
    # --- velocity setters
    nv = 0
    for f in p.functions.values():
        if f.get("clsPlain") != "simu::Body" or not f.get("body") or f.get("ctor") or f.get("dtor") or f.get("const"):
            continue
        if f.get("access") not in (None, "public"):
            continue
        bb = Builder(p, opaque=lambda q: any(x in q["name"] for x in ("RTree", "Matrix", "Profiler", "Transform::", "Colliders::", "Collider::", "GeometricProperties", "MassProperties")) or "/math/" in q["file"])
        try:
            tt, _ = bb.root(f)
        except AnalysisBroken:
            continue
        v = Vel()
        v.n = 0
        ex = v.run(tt, frozenset([frozenset()]))
        if not v.n:
            continue
        nv += 1
        rep.builder(bb)
        for k in ("n", "r", "rt", "rf"):
            for st in ex.get(k, ()):
                rep.check(("moved",) not in st or ("awake",) in st, "velocity-change-wakes", f["name"], "%s:%s (%s)" % (rel(f["file"]), f["line"], f["name"]),
                          "%s changes the velocity of a body and may leave it asleep" % f["name"])
    # --- unlinking
    u = Unlink()
    u.lists = {"simu::Body::" + f["name"] for f in p.rec("simu::Body")["fields"] if std_container(f["type"]) and "Constraint *" in f["type"]}
    u.run(t, frozenset([frozenset()]))
    for st in u.ends:
        for f in st:
            if f[0] == "un":
                rep.check(False, "unlinked-body-woken", f[2], f[2], "a body loses a constraint or contact without being woken")
    for i in range(min(u.n, 2)):
        rep.ok("unlinked-body-woken", "unlink site %d" % i)
    # --- inventory
    for f in p.functions.values():
        if not f.get("body"):
            continue
        for w, line in writes_of(f, "isAsleep_"):
            lit = w
            rep.check(lit is not None, "sleep-state-inventory", "%s:%s" % (f["name"], line), "%s:%s (in %s)" % (rel(f["file"]), line, f["name"]), "the sleep state of a body is written with a computed value")
            if lit is True:
                # only the step may put a body to sleep
                callers = callers_of(p, f)
                okk = f["name"].startswith("simu::World::") or callers and all(c.startswith("simu::World::") for c in callers)
                rep.check(okk, "only-the-step-sleeps", f["name"], "%s:%s (in %s)" % (rel(f["file"]), line, f["name"]), "a body is put to sleep outside of the world's step (called from %s)" % ", ".join(sorted(callers))[:80])
    for r, k in (("clock-runs-only-when-slow", 1), ("clock-resets-only-when-fast", 1), ("sleep-after-delay", 2), ("clock-updated-each-step", 1), ("awake-member-noticed", 1),
                 ("awake-member-wakes-all", 3), ("velocity-change-wakes", 4), ("unlinked-body-woken", 2), ("only-the-step-sleeps", 1)):
        rep.floor(r, k)


def writes_of(f, field):
    """(bool literal or None, line) of direct assignments to a field of that name"""
    out, stack = [], [f["body"]]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(x)
        elif isinstance(x, dict):
            if x.get("k") == "asg" and isinstance(x.get("a"), dict) and x["a"].get("k") in ("mem", "member") and (x["a"].get("field") or x["a"].get("name", "")).split("::")[-1] == field:
                e = x["b"]
                while isinstance(e, dict) and e.get("k") == "cast":
                    e = e["e"]
                v = e.get("v") if isinstance(e, dict) and e.get("k") in ("bool", "lit", "int") else None
                out.append((bool(v) if v is not None else None, x["l"]))
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
    return out


def callers_of(p, f):
    out = set()
    for q in p.functions.values():
        if not q.get("body"):
            continue
        stack = [q["body"]]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
            elif isinstance(x, dict):
                c = x.get("callee")
                if isinstance(c, dict) and c.get("fn") == f["id"]:
                    out.add(q["name"])
                stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
    return out


RULES = [rules]
