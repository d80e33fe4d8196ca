"""C02: registration of objects in the world."""
from world import *

EXPLANATION = (
    "Forward dataflow over the inlined body of every function of the world that puts an object in one of its owning "
    "containers (discovered from the insertion, all template instantiations analysed), over the step (contact creation) "
    "and over the functions that discard whole containers. Counting facts decide 'exactly once', quantified facts "
    "decide 'for every body of the constraint'; the destruction order is read from the record layout.")
ASSUMPTIONS = ["user constraint/body/force classes do not edit the bodies' lists themselves"]

INS = {"emplace_back", "push_back", "emplace_front", "push_front", "emplace", "insert", "push", "insert_or_assign", "try_emplace"}


def deep(t):
    return deep_strip(t)


def body_of_list(t):
    """(body term, field) when t is a list member of a body"""
    t = deep(t)
    if isinstance(t, tuple) and t[0] == "fld" and t[2].startswith("simu::Body::"):
        return t[1], t[2]
    return None


def bodies_range(t):
    """constraint C when t is an element of C's bodies"""
    t = deep(t)
    if isinstance(t, tuple) and t[0] in ("elem", "idx"):
        r = t[1]
        if isinstance(r, tuple) and r[0] == "fld" and r[2] == "simu::Bodies::bodies_":
            r = r[1]
        if isinstance(r, tuple) and r[0] == "fld" and r[2] == "simu::Constraint::bodies_":
            return r[1]
    return None


class Reg(QFlow):
    preds = ("linked", "woken")

    def __init__(self, ow, p):
        self.ow, self.p = ow, p
        self.dups = []
        self.made = []
        self.notes = []

    def did(self, st, label, ev):
        m = ("miss", "did", label)
        if m in st:
            self.dups.append((label, ev))
        return st | {m, ("seen", label)}

    def loop_iter(self, L, st):
        for s in QFlow.loop_iter(self, L, st):
            yield frozenset(f for f in s if not (f[:2] == ("miss", "did") and self.mentions(f[2], L.elem) and L.elem is not None))

    def holds(self, pred, elem, st):
        return (pred, deep(elem)) in st

    def event(self, ev, st):
        if ev.kind == "write" and ev.name in ("=", "init") and isinstance(ev.obj, tuple) and ev.obj[0] == "fld":
            f = ev.obj[2]
            if f == "simu::Body::isAsleep_" and ev.args and ev.args[0] == ("lit", False):
                return (st | {("woken", deep(ev.obj[1]))} | self.idx("woken", ev.obj[1], st),)
            if f == "simu::Body::world_" and ev.args[0] == ("this",):
                return (st | {("seen", "world")},)
        if ev.kind != "call":
            return (st,)
        short = ev.name.split("::")[-1]
        if short == "onConstruction":
            if not ev.args or ev.args[0] != ("this",):
                return (st,)
            if ("seen", "world") not in st:
                st = st | {("miss", "constructed", "without-world")}
            return (self.did(st, "onConstruction", ev),)
        if short == "setAllocator":
            return (self.did(st, "setAllocator", ev),)
        if short in INS and ev.obj is not None:
            for o in self.ow:
                if deep(ev.obj) == o.term:
                    return (self.did(st, "insert:" + o.field, ev),)
            bl = body_of_list(ev.obj)
            if bl:
                body, field = bl
                c = bodies_range(body)
                if ("linked", body) in st:
                    self.dups.append(("link " + field, ev))
                self.made.append((ev, body, field, c, ev.args[-1] if ev.args else None))
                if c is not None:
                    return (st | {("linked", body)} | self.idx("linked", body, st),)
        return (st,)

    def idx(self, pred, body, st):
        """both bodies handled one by one amounts to a loop over them"""
        b = deep(body)
        if isinstance(b, tuple) and b[0] == "idx" and isinstance(b[2], tuple) and b[2][0] == "lit":
            other = ("idx", b[1], ("lit", 1 - b[2][1]))
            if (pred, other) in st:
                c = b[1][1] if b[1][2].endswith("Bodies::bodies_") else b[1]
                return {("all", pred, ("elem", c))}
        return frozenset()


def linked_ok(st, pred):
    return any(f[0] == "all" and f[1] == pred and bodies_range(f[2]) is not None for f in st)


def roots(p, ow):
    out = []
    for f in p.functions.values():
        if f.get("clsPlain") != "simu::World" or not f.get("body") or f.get("lambda"):
            continue
        if f["name"].split("::")[-1] in ("step",):
            continue
        out.append(f)
    return out


def registration(p, rep):
    ow = owners(p)
    n = {}
    for fn in roots(p, ow):
        b, t, ctx = tree_of(p, None, fn)
        ins = []
        for ev, ps in events(t):
            if ev.kind == "call" and ev.obj is not None and ev.name.split("::")[-1] in INS:
                for o in ow:
                    if deep(ev.obj) == o.term and o.inner is None:
                        ins.append(o)
        if not ins:
            continue
        rep.builder(b)
        o = ins[0]
        fl = Reg(ow, p)
        ex = fl.run(t, frozenset([frozenset()]))
        where = "%s:%s (in %s)" % (rel(fn["file"]), fn["line"], fn["name"])
        inst = fn["id"][:150]
        n[o.field] = n.get(o.field, 0) + 1
        for label, ev in fl.dups:
            rep.bad("registered-exactly-once", ev.where(), "%s may happen more than once for one object" % label)
        for k in ("n", "r"):
            for st in ex.get(k, ()):
                rep.check(("seen", "insert:" + o.field) in st, "registered-exactly-once", inst + " owned", where,
                          "a path returns without the world owning the new object")
                rep.check(("seen", "onConstruction") in st, "construction-hook-once", inst, where,
                          "a path returns without onConstruction(world) having run on the new object")
                rep.check(("seen", "setAllocator") in st, "allocator-handed-over", inst, where,
                          "a path returns without the allocator of the world having been handed to the new object")
                if o.cls == "simu::Body":
                    rep.check(("seen", "world") in st and ("miss", "constructed", "without-world") not in st, "body-knows-its-world-before-hook", inst, where,
                              "the construction hook of a body runs (or the body is returned) before the body knows its world")
                if derives(p, o.cls, "simu::Constraint"):
                    rep.check(linked_ok(st, "linked"), "linked-to-every-body", inst, where,
                              "a path returns without the constraint being in the list of every one of its bodies")
                    rep.check(linked_ok(st, "woken"), "bodies-awake-after-registration", inst, where,
                              "a path returns without every body of the new constraint having been woken")
        if derives(p, o.cls, "simu::Constraint"):
            for ev, body, field, c, val in fl.made:
                rep.check(c is not None and val is not None and alias(val, c, o), "link-names-the-new-object", inst + " " + field, ev.where(),
                          "the list of a body receives something else than the new constraint")
                rep.check(field == "simu::Body::" + ("contacts_" if "Contact" in o.cls else "constraints_"), "link-in-the-right-list", inst, ev.where(),
                          "the new constraint is put in the wrong list of its bodies")
    for o in ow:
        if o.inner is None and not n.get(o.field):
            raise AnalysisBroken("no function registers objects in " + o.field)
    rep.floor("linked-to-every-body", 8)


def alias(val, c, o):
    v, c = deep(val), deep(c)
    if v == c:
        return True
    # the freshly inserted element and the pointer it was built from
    fresh = lambda x: isinstance(x, tuple) and (x == ("elem", o.term) or x[0] in ("call", "obj", "new", "var"))
    return fresh(v) and fresh(c)


class Contacts(Reg):
    """contact creation inside the step"""

    def __init__(self, ow, p):
        Reg.__init__(self, ow, p)
        self.creations = []
        self.lost = []
        self.own = [o for o in ow if o.inner][0]

    def event(self, ev, st):
        if ev.kind == "call" and ev.name == "std::function::operator()" and isinstance(ev.obj, tuple) and ev.obj[0] == "fld" and ev.obj[2].startswith("simu::World::"):
            self.creations.append(ev)
            st = frozenset(f for f in st if not (f[:2] == ("miss", "did")))
            return (st | {("made", deep(ev.res), ev)},)
        mk = [f for f in st if f[0] == "made"]
        if mk:
            r = mk[0][1]
            if ev.kind == "write" and isinstance(ev.obj, tuple) or ev.kind == "call" and ev.name == "std::unique_ptr::operator=":
                if ev.args and deep(ev.args[0]) == r and owner_key(self.ow, ev.obj):
                    return (st | {("stored", r)},)
            if ev.kind == "call" and ev.name.split("::")[-1] in INS and ev.obj is not None and deep(ev.obj) == self.own.term:
                if any(x == r for a in ev.args for x in subterms(deep(a))):
                    return (st | {("stored", r)},)
        return Reg.event(self, ev, st)

    def check(self, st):
        for f in st:
            if f[0] == "made":
                r = f[1]
                if ("stored", r) not in st:
                    self.lost.append(("stored", f[2]))
                if ("seen", "onConstruction") not in st:
                    self.lost.append(("onConstruction", f[2]))
                for pr in ("linked", "woken"):
                    if not any(g[0] == "all" and g[1] == pr and bodies_range(g[2]) == r for g in st):
                        self.lost.append((pr, f[2]))

    def iter_end(self, L, st):
        if L.kind.startswith("callback"):
            self.check(st)
            st = frozenset(f for f in st if f[0] not in ("made", "seen", "stored"))
        return QFlow.iter_end(self, L, st)


def contacts(p, rep):
    ow = owners(p)
    b, t, ctx = tree_of(p, rep, "simu::World::step")
    fl = Contacts(ow, p)
    ex = fl.run(t, frozenset([frozenset()]))
    if not fl.creations:
        raise AnalysisBroken("no contact creation reached from World::step")
    for k in ("n", "r"):
        for st in ex.get(k, ()):
            fl.check(st)
    msg = {"stored": "a created contact is not stored in the contact registry",
           "onConstruction": "onConstruction is not called on a created contact",
           "linked": "a created contact is not put in the list of every one of its bodies",
           "woken": "the bodies of a created contact are not all woken"}
    for ev in fl.creations:
        for what, m in msg.items():
            rep.check(not any(w == what and e is ev for w, e in fl.lost), "contact-" + what, "creation at " + ev.where(), ev.where(), m)
    for label, ev in fl.dups:
        if label.startswith(("onConstruction", "link")):
            rep.bad("registered-exactly-once", ev.where(), "%s may happen more than once for one contact" % label)
    for ev, body, field, c, val in fl.made:
        rep.check(c is not None and deep(val) == c and field == "simu::Body::contacts_", "link-names-the-new-object", "contact " + ev.where(), ev.where(),
                  "the contact list of a body receives something else than the new contact")


class Dis(QFlow):
    preds = ("unlisted",)

    def __init__(self, ow, p):
        self.ow, self.p = ow, p
        self.ev = []

    def holds(self, pred, elem, st):
        return ("unlisted", deep(elem)) in st

    def event(self, ev, st):
        for o in self.ow:
            op = container_event(ev, o.term)
            if op in ("clear", "operator=", "swap", "assign", "resize") and ev.name != "init":
                self.ev.append((ev, o, st))
                return (st | {("gone", o.field)},)
        if isinstance(ev.obj, tuple) and body_of_list(ev.obj) and body_of_list(ev.obj)[1] == "simu::Body::contacts_":
            op = ev.name.split("::")[-1]
            if op == "clear":
                return (st | {("unlisted", deep(ev.obj[1]))},)
        if ev.kind == "call" and ev.name.startswith("simu::RTree::clear") :
            self.ev.append((ev, None, st))
        return (st,)


def wholesale(p, rep):
    """containers discarded as a whole"""
    ow = owners(p)
    bo = [o for o in ow if o.cls == "simu::Body"][0]
    co = [o for o in ow if o.inner][0]
    tree_ops = 0
    for fn in roots(p, ow):
        b, t, ctx = tree_of(p, None, fn)
        fl = Dis(ow, p)
        fl.run(t, frozenset([frozenset()]))
        if not fl.ev:
            continue
        rep.builder(b)
        for ev, o, st in fl.ev:
            inst = "%s in %s" % (o.field if o else "collider index", fn["name"])
            gone = ("gone", bo.field) in st
            if o is bo:
                tree_ops += 1
                rep.check(True, "bodies-destroyed-first", inst, ev.where(), "")
            elif o is None:
                rep.check(gone, "bodies-destroyed-first", inst, ev.where(),
                          "the collider index is emptied while bodies whose colliders it names are still alive")
            elif o is co:
                ok = gone or ("all", "unlisted", ("elem", bo.term)) in st
                rep.check(ok, "contacts-unlisted-before-discarded", inst, ev.where(),
                          "contacts are destroyed while living bodies still list them")
            elif derives(p, o.cls, "simu::Constraint"):
                rep.check(gone, "contacts-unlisted-before-discarded", inst, ev.where(),
                          "constraints are destroyed while living bodies still list them")
    if not tree_ops:
        raise AnalysisBroken("no function clears the bodies of the world")
    # destruction of the world: members are destroyed in reverse declaration order
    w = p.rec("simu::World")
    order = [f["name"] for f in w["fields"]]
    dtor = [f for f in p.functions.values() if f["name"] == "simu::World::~World" and f.get("body") and f["body"].get("c")]
    # members the destructor of a body reaches through its world
    bd, tt, _ = tree_of(p, rep, "simu::Body::~Body")
    used = set()
    for ev, ps in events(tt):
        for term in [ev.obj] + list(ev.args or []):
            for x in subterms(term) if isinstance(term, tuple) else ():
                if x[0] == "fld" and x[2].startswith("simu::World::"):
                    used.add(x[2].split("::")[-1])
    used.add(co.field)      # contacts named by the lists of the body
    if len(used) < 2:
        raise AnalysisBroken("the destructor of a body no longer reaches its world")
    for m in sorted(used):
        if m not in order:
            raise AnalysisBroken("unknown world member " + m)
        rep.check(order.index(m) < order.index(bo.field), "world-members-outlive-bodies", "%s before %s" % (m, bo.field),
                  "%s (simu::World)" % rel(w["file"]) if w.get("file") else "simu::World",
                  "member %s is destroyed before %s although destroying a body uses it" % (m, bo.field))
    for i, f in enumerate(w["fields"]):
        if "FreeListAllocator" in f["type"] and not std_container(f["type"]) and "Tree" not in f["type"] and f["type"].startswith("simu::FreeListAllocator"):
            later = [o.field for o in ow if order.index(o.field) < i]
            rep.check(not later, "allocators-outlive-containers", f["name"], "simu::World", "allocator %s is destroyed before %s" % (f["name"], later))


RULES = [registration, contacts, wholesale]
