"""C01: two-phase removal of dead objects at the start of a step."""
from world import *

EXPLANATION = (
    "Interprocedural dataflow over World::step with every repository callee inlined (context sensitive). "
    "The containers of the world that own physics objects are found by type. Facts: an element is known dead/alive "
    "(from the killed flag and shouldDie), queried, notified, unlinked, erased; a fact that holds at the end of every "
    "iteration of a full, break-free loop becomes a fact about all elements. The rules are then checked at every "
    "event that can destroy an owned object and at the first pre-step callback.")
ASSUMPTIONS = ["user overrides of shouldDie/onDestruction call their base, as the documentation requires",
               "a container is only modified through the operations modelled (any other one on an owning container is reported)"]

KILLED = "simu::PhysicsObject::killed_"


class F(QFlow):
    preds = ("queried", "swept", "notified", "erased", "unlinked", "unlinkedone")

    def __init__(self, ow, p):
        self.ow, self.p = ow, p
        self.names = {o.field: o for o in ow}
        self.inserts = {}     # (field, local) -> all guarded dead?
        self.destroys = []    # (ev, short, field, key, state)
        self.presteps = []
        self.first = None

    def key(self, e):
        k = owner_key(self.ow, e)
        return k[1] if k else e

    def okey(self, t):
        k = owner_key(self.ow, t)
        return k

    def assume(self, term, truth, st, atom):
        neg, t = canon_cmp(term)
        if neg:
            truth = not truth
        # searched for in a back-reference list and not found there
        if t[0] == "op" and t[1] == "==" and truth and isinstance(t[2], tuple) and t[2][0] == "elem":
            for f in st:
                if f[0] == "found" and f[1] == deep(t[2][1]):
                    return st | {self.unl(f[2], raw_base(t[2]))}
        # null tests of the owned pointer
        if t[0] == "op" and t[1] == "==" and t[3] == ("null",):
            k = self.okey(t[2])
            if k and truth:
                return st | {("null", k[1])}
            return st
        obj = None
        if t[0] == "fld" and t[2] == KILLED:
            obj = t[1]
            k = self.okey(obj)
            if not k:
                return st
            if ("nk", k[1]) in st and truth or ("dk", k[1]) in st and not truth:
                return None
            return st | {("dk" if truth else "nk", k[1])}
        if t[0] == "call" and t[1].endswith("::shouldDie"):
            k = self.okey(t[2])
            if not k:
                return st
            return st | {("ds" if truth else "ns", k[1])}
        if t[0] == "call" and t[1].endswith("::isDead"):
            k = self.okey(t[2])
            return st | ({("dk", k[1])} if truth else {("nk", k[1]), ("ns", k[1])}) if k else st
        return st

    def dead(self, key, st):
        return ("dk", key) in st or ("ds", key) in st

    def alive(self, key, st):
        return ("nk", key) in st and ("ns", key) in st or ("null", key) in st

    def holds(self, pred, elem, st):
        k = self.key(elem)
        if pred == "queried":
            return self.dead(k, st) or self.alive(k, st)
        if pred == "swept":
            return self.alive(k, st) or ("erased", k) in st or any(f[0] == "in" and f[1] == k for f in st)
        if pred == "notified":
            return ("notified", k) in st or self.alive(k, st)
        if pred == "erased":
            return ("erased", k) in st or self.alive(k, st)
        if pred == "unlinked":
            return self.alive(k, st) or any(f[0] == "unl" and f[1] == k and f[2] == "all" for f in st) or \
                all(any(f[0] == "unl" and f[1] == k and f[2] == i for f in st) for i in (0, 1))
        if pred == "unlinkedone":
            return any(f[0] == "unl" and f[3] == elem for f in st if len(f) > 3)
        return False

    def loop_exit(self, L, st):
        for s in QFlow.loop_exit(self, L, st):
            # every body of the object of an owned element was unlinked
            add = set()
            if L.elem is not None and ("all", "unlinkedone", self.key(L.elem)) in s:
                e = L.elem
                for o in subterms(e):
                    k = self.okey(o)
                    if k:
                        add.add(("unl", k[1], "all"))
            yield s | frozenset(add)

    def event(self, ev, st):
        if ev.kind == "call":
            short = ev.name.split("::")[-1]
            # notification
            if short == "onDestruction" and ev.obj is not None:
                k = self.okey(ev.obj)
                if k:
                    return (st | {("notified", k[1])},)
            if short == "preStep":
                if self.first is None:
                    self.first = (ev, set(self.inserts))
                if ev is self.first[0]:
                    self.presteps.append((ev, st))
                return (st,)
            # insertion in a local list
            if isinstance(ev.obj, tuple) and ev.obj[0] == "var" and short in (
                    "emplace_back", "push_back", "insert", "emplace", "push_front", "push", "emplace_front"):
                k = self.okey(ev.args[-1]) if ev.args else None
                if k and k[1][0] == "elem":
                    d = (k[0], ev.obj)
                    self.inserts[d] = self.inserts.get(d, True) and self.dead(k[1], st)
                    return (st | {("in", k[1], ev.obj)},)
            # removal of the object from a back-reference list of one of its bodies
            if short in ("erase", "remove", "erase_if", "remove_if") and ev.name.startswith("std::"):
                lst = ev.obj if ev.obj is not None else (ev.args[0] if ev.args else None)
                lst = deep(lst)
                if isinstance(lst, tuple) and lst[0] == "fld" and ev.args and not any(lst == o.term for o in self.ow):
                    what = None
                    for a in ev.args:
                        what = what or self.okey(a) or (self.okey(a[2]) if isinstance(a, tuple) and a[0] == "removed" else None)
                    base = raw_base(ev.obj if ev.obj is not None else ev.args[0])
                    if what is None and ev.obj is not None:
                        # erase(find(list, x)): remembered by the find event
                        for f in st:
                            if f[0] == "found" and f[1] == lst:
                                what = (None, f[2])
                    if what and base is not None:
                        return (st | {self.unl(what[1], base)},)
            if short in ("find", "find_if") and ev.name.startswith("std::") and ev.obj is None and len(ev.args) >= 3:
                k = self.okey(ev.args[2])
                r = ev.args[0]
                if k and isinstance(r, tuple) and r[0] == "elem":
                    return (st | {("found", deep(r[1]), k[1])},)
        for o in self.ow:
            op = container_event(ev, o.term)
            if op in DESTROYERS:
                k = None
                for a in ev.args or []:
                    k = k or self.okey(a)
                self.destroys.append((ev, op, o.field, k[1] if k else None, st))
                if k:
                    st = st | {("erased", k[1])}
                return (st,)
            # the owning pointer itself
            if ev.kind == "write" or ev.kind == "call" and ev.name.split("::")[-1] in ("reset", "release", "swap"):
                kk = self.okey(ev.obj) if ev.obj is not None else None
                if kk and kk[0] == o.field and ev.name in ("=", "std::unique_ptr::reset", "std::unique_ptr::release", "std::unique_ptr::swap") \
                        and not self.cursor(ev) and self.isptr(ev):
                    self.destroys.append((ev, "reset", o.field, kk[1], st))
                    return (st | {("erased", kk[1])},)
        return (st,)

    def isptr(self, ev):
        n = ev.node or {}
        t = (n.get("obj") or n.get("a") or {}).get("t", "")
        return t.replace("const ", "").startswith("std::unique_ptr") or ev.name.startswith("std::unique_ptr")

    def cursor(self, ev):
        n = ev.node or {}
        o = n.get("obj") or n.get("a") or {}
        return o.get("k") == "var"

    def unl(self, objkey, body):
        b = body
        if isinstance(b, tuple) and b[0] == "idx" and isinstance(b[2], tuple) and b[2][0] == "lit":
            return ("unl", objkey, b[2][1], None)
        return ("unl", objkey, "one", body)


def deep(t):
    return deep_strip(t)


def raw_base(t):
    """the body whose list is edited"""
    t = strip_term(t) if isinstance(t, tuple) and t[0] != "sel" else t
    if isinstance(t, tuple) and t[0] == "elem":
        t = t[1]
    return t[1] if isinstance(t, tuple) and t[0] == "fld" else None


def rules(p, rep):
    ow = owners(p)
    b, t, ctx = tree_of(p, rep, "simu::World::step")
    fl = F(ow, p)
    ex = fl.run(t, frozenset([frozenset()]))
    # 1. who may be destroyed
    seen = set()
    if not fl.presteps:
        raise AnalysisBroken("no preStep callback reached from World::step")
    for ev, op, field, key, st in fl.destroys:
        inst = "%s of %s at %s" % (op, field, ev.where())
        rep.ok("destroy-only-dead", inst)
        if key is None:
            if op in ("remove_if", "erase_if", "erase", "remove"):
                rep.bad("destroy-only-dead", ev.where(), "%s on %s: the erased elements are not known to be dead" % (op, field), key="destroy-only-dead|" + inst)
            else:
                rep.bad("destroy-only-dead", ev.where(), "%s discards elements of %s whether dead or not during a step" % (op, field), key="destroy-only-dead|" + inst)
            continue
        if key[0] == "sel":
            if not fl.inserts.get((field, key[2]), False):
                rep.bad("destroy-only-dead", ev.where(), "elements of %s are erased from a local selection whose members were not all established dead" % field, key="destroy-only-dead|" + inst)
        elif not fl.dead(key, st):
            rep.bad("destroy-only-dead", ev.where(), "an element of %s is erased on a path where it was not established dead" % field, key="destroy-only-dead|" + inst)
        # 2. everything queried, notified before the first destruction
        for o in ow:
            full = ("elem", o.term)
            i2 = "%s -> %s" % (inst, o.field)
            rep.check(("all", "queried", full) in st, "all-queried-before-destruction", i2, ev.where(),
                      "an object of %s is destroyed before every object of %s was asked whether it is dead" % (field, o.field))
            sels = [("sel", full, d) for (f, d) in fl.first[1] if f == o.field]
            okn = ("all", "notified", full) in st or sels and all(("all", "notified", s) in st for s in sels)
            rep.check(bool(okn), "all-notified-before-destruction", i2, ev.where(),
                      "an object of %s is destroyed before every dead object of %s received onDestruction" % (field, o.field))
            if derives(p, o.cls, "simu::Constraint"):
                oku = ("all", "unlinked", full) in st or sels and all(("all", "unlinked", s) in st for s in sels)
                rep.check(bool(oku), "unlinked-before-destruction", i2, ev.where(),
                          "an object of %s is destroyed before the dead objects of %s were removed from the lists of all their bodies" % (field, o.field))
    # 3. at the first callback, no dead object is left
    for ev, st in fl.presteps:
        for o in ow:
            full = ("elem", o.term)
            i = "%s before preStep at %s" % (o.field, ev.where())
            rep.check(("all", "swept", full) in st, "swept-before-prestep", i, ev.where(),
                      "preStep runs although some path does not check every object of %s for death (or drops a dead one from the removal list)" % o.field)
            for (f, d) in sorted(fl.first[1], key=repr):
                if f == o.field:
                    rep.check(("all", "erased", ("sel", full, d)) in st, "dead-erased-before-prestep", i + " list " + d[1], ev.where(),
                              "the dead objects collected from %s are not all erased when preStep runs" % o.field)
    for k in ("n", "r"):
        for st in ex.get(k, ()):
            for o in ow:
                rep.check(("all", "swept", ("elem", o.term)) in st, "swept-on-every-path", o.field, "World::step",
                          "some path through the step does not remove the dead objects of %s" % o.field)
    rep.floor("destroy-only-dead", len(ow))
    rep.floor("swept-before-prestep", len(ow))


class AliveAll(QFlow):
    preds = ("alive",)

    def assume(self, term, truth, st, atom):
        neg, t = canon_cmp(term)
        if neg:
            truth = not truth
        if t[0] == "fld" and t[2] == KILLED:
            return st | {("dk" if truth else "nk", deep(t[1]))}
        if t[0] == "call" and t[1].endswith("::shouldDie"):
            return st | {("ds" if truth else "ns", deep(t[2]))}
        if t[0] == "call" and t[1].endswith("::isDead"):
            k = deep(t[2])
            return st | ({("dk", k)} if truth else {("nk", k), ("ns", k)})
        return st

    def holds(self, pred, elem, st):
        k = deep(elem)
        return ("nk", k) in st and ("ns", k) in st


def death_of_constraints(p, rep):
    """a constraint (contact included) dies with any of its bodies"""
    base = p.fn("simu::Constraint::shouldDie")
    n = 0
    for fid in [base["id"]] + p.all_overriders(base["id"]):
        fn = p.functions[fid]
        if not fn.get("body"):
            continue
        n += 1
        b, t, ctx = tree_of(p, rep, fn)
        ex = AliveAll().run(t, frozenset([frozenset()]))
        for k in ("rf", "r"):
            for st in ex.get(k, ()):
                alls = [f for f in st if f[0] == "all" and f[1] == "alive"]
                idx = {f[1][2][1] for f in st if f[0] == "nk" and isinstance(f[1], tuple) and f[1][0] == "idx" and ("ns", f[1]) in st and f[1][2][0] == "lit"}
                good = any("bodies_" in show(f[2]) for f in alls) or idx >= {0, 1}
                if k == "r" and not ex.get("rt") and not ex.get("rf"):
                    good = False
                rep.check(good, "constraint-dies-with-its-bodies", fn["name"], "%s:%s (in %s)" % (rel(fn["file"]), fn["line"], fn["name"]),
                          "%s may answer 'alive' without having established that every body of the constraint is alive" % fn["name"])
        rep.ok("constraint-dies-with-its-bodies", fn["name"])
    rep.floor("constraint-dies-with-its-bodies", 1)
    # isDead is true when killed or shouldDie
    b, t, ctx = tree_of(p, rep, "simu::PhysicsObject::isDead")
    ex = AliveAll().run(t, frozenset([frozenset()]))
    for st in ex.get("rf", ()) | ex.get("r", frozenset()):
        good = ("nk", ("this",)) in st and ("ns", ("this",)) in st
        rep.check(good, "dead-when-killed-or-dying", "simu::PhysicsObject::isDead", "isDead",
                  "isDead may answer false although the object was killed or its death condition holds")
    for st in ex.get("rt", ()):
        good = ("dk", ("this",)) in st or ("ds", ("this",)) in st
        rep.check(good, "dead-when-killed-or-dying", "simu::PhysicsObject::isDead true", "isDead",
                  "isDead may answer true although the object was neither killed nor dying")
    # kill sets the flag on every path
    b, t, ctx = tree_of(p, rep, "simu::PhysicsObject::kill")

    class K(Flow):
        def event(self, ev, st):
            if ev.kind == "write" and ev.obj == ("fld", ("this",), KILLED):
                return (ev.args[0] == ("lit", True),)
            return (st,)
    for k, S in K().run(t, False).items():
        for s in S:
            rep.check(s, "kill-sets-flag", "kill exit " + k, "PhysicsObject::kill", "a path through kill leaves the object not marked as killed")
    # nothing resets the flag
    for f in p.functions.values():
        if f.get("clsPlain") and f.get("body") and f["name"] not in ("simu::PhysicsObject::kill",):
            pass
    rep.floor("dead-when-killed-or-dying", 1)


RULES = [rules, death_of_constraints]
