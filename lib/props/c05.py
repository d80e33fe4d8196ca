"""C05: contacts mirror the reported pairs."""
from world import *

EXPLANATION = (
    "Dataflow over the collision pass inlined in World::step: the callback given to the index is analysed as a loop body over "
    "reported pairs (who is the same body, which constraint disables contacts, what was looked up and in which order, what "
    "was created and marked), then the sweep over the registry is analysed with quantified facts (marked, killed, reset).")
ASSUMPTIONS = ["the index reports every overlapping pair, in either order (tree properties)",
               "a contact factory returns a contact over the two colliders it is given"]

HIT = None
INSERT = {"operator[]", "emplace", "insert", "try_emplace", "insert_or_assign", "at"}


def field_names(p):
    """(registry term, mapped class, bool field, pointer field) found by type"""
    w = p.rec("simu::World")
    for f in w["fields"]:
        if not std_container(f["type"]) or "map" not in f["type"].split("<")[0]:
            continue
        for r in p.records.values():
            if r["plain"].startswith("simu::") and r["plain"] in f["type"]:
                ptr = [g for g in r["fields"] if g["type"].startswith("std::unique_ptr")]
                flag = [g for g in r["fields"] if g["type"] == "bool"]
                if ptr and len(flag) == 1:
                    return ("fld", ("this",), "simu::World::" + f["name"]), r["plain"], r["plain"] + "::" + flag[0]["name"], r["plain"] + "::" + ptr[0]["name"]
    raise AnalysisBroken("the registry of contacts (a map to a status with one flag and an owned contact) was not found")


class G(QFlow):
    both = ("created", "marked", "same", "passed", "f", "nf", "looked", "last", "killed", "reset", "unhit", "washit")
    preds = ("nodis", "notnamed", "resolved", "reset")
    PAIR = ("looked", "f", "nf", "last", "created", "marked", "same", "diff", "dis", "naming", "registered", "fixed", "movable")

    def __init__(self, p, reg, flag, ptr):
        self.p, self.reg, self.flag, self.ptr = p, reg, flag, ptr
        self.el = ("elem", reg)
        self.cb = None
        self.creates, self.marks, self.inserts, self.ends = [], [], [], []
        self.kills = []
        self.tree = ("fld", ("this",), "simu::World::colliderTree_")
        self.pairwise = {}
        self.badret = []
        self.pass_at = []

    # ---- the reported pair
    def side(self, t):
        """'a'/'b' when t is the first/second reported collider, 'A'/'B' its body"""
        t = deep_strip(t)
        if not isinstance(t, tuple):
            return None
        if t[0] == "fld" and t[2] == "simu::Collider::body_":
            s = self.side(t[1])
            return s.upper() if s in ("a", "b") else None
        x = t
        while isinstance(x, tuple) and (x[0] == "call" and x[1].endswith("operator*")):
            x = x[2]
        if x == ("elem", self.tree):
            return "a"
        if x == ("elem2", self.tree):
            return "b"
        return None

    def order(self, t):
        """'ab' or 'ba' for a key made of the two colliders"""
        s = [self.side(x) for x in subterms(deep_strip(t)) if self.side(x) in ("a", "b")]
        out = []
        for x in s:
            if not out or out[-1] != x:
                out.append(x)
        return "".join(out) if sorted(out) == ["a", "b"] else "".join(out)

    def constraint_of(self, t):
        """('A'|'B', constraint term) when t is an element of the list of constraints of one of the two bodies"""
        t = deep_strip(t)
        for x in subterms(t):
            if x[0] == "elem" and isinstance(x[1], tuple) and x[1][0] == "fld" and x[1][2] == "simu::Body::constraints_":
                s = self.side(x[1][1])
                if s:
                    return s, x
        return None

    def assume(self, term, truth, st, atom):
        neg, t = canon_cmp(term)
        if neg:
            truth = not truth
        if t[0] == "op" and t[1] == "==":
            a, b = t[2], t[3]
            sa, sb = self.side(a), self.side(b)
            for x, y in ((a, b), (b, a)):
                x = deep_strip(x)
                if isinstance(x, tuple) and x[0] == "fld" and x[2] == "simu::Body::dominance_" and y in (("lit", 0), ("lit", 0.0), ("zero",)) and self.side(x[1]) in ("A", "B"):
                    return st | {("fixed" if truth else "movable", self.side(x[1]))}
            if {sa, sb} == {"A", "B"}:
                return st | {("same" if truth else "diff",)}
            for x, s in ((a, sb), (b, sa)):
                c = self.constraint_of(x)
                if c and s in ("A", "B") and s != c[0]:
                    i = deep_strip(x)
                    which = i[2][1] if i[0] == "idx" and i[2][0] == "lit" else "e"
                    return st | {("naming" if truth else "nn", c[1], which, i)}
            if deep_strip(a) == self.el and deep_strip(b) == self.el or ("endof" in repr(b) and deep_strip(a) == self.el):
                last = [f[1] for f in st if f[0] == "last"]
                if last:
                    o = last[0]
                    if truth and ("f", o) in st or not truth and ("nf", o) in st:
                        return None
                    return st | {("nf" if truth else "f", o)}
            if b == ("null",) and isinstance(deep_strip(a), tuple) and owner_key_is(deep_strip(a), self.el, self.ptr):
                return st | ({("null", self.el)} if truth else {("nonnull", self.el)})
            return st
        if t[0] == "call":
            short = t[1].split("::")[-1]
            if short in ("contains", "count") and deep_strip(t[2]) == self.reg:
                o = self.order(t[3])
                return st | {("looked", o), ("f" if truth else "nf", o)}
            if short == "disablesContacts":
                c = self.constraint_of(t[2])
                if c:
                    return st | {("dis" if truth else "nd", c[1])}
        if t[0] == "fld" and t[2] == "simu::Constraint::disableContacts_" or t[0] == "fld" and "disable" in t[2].lower():
            c = self.constraint_of(t)
            if c:
                return st | {("dis" if truth else "nd", c[1])}
        if t[0] == "fld" and t[2] == self.flag and deep_strip(t[1]) in (self.el, ("fld", self.el, "std::pair::second")):
            if ("reset", self.el) in st or ("all", "reset", self.el) in st:
                return st
            if truth and ("unhit", self.el) in st or not truth and ("washit", self.el) in st:
                return None
            return st | {("washit" if truth else "unhit", self.el)}
        return st

    def holds(self, pred, elem, st):
        e = deep_strip(elem)
        if pred == "nodis":
            nn = [f for f in st if f[0] == "nn" and f[1] == e]
            return ("nd", e) in st or {f[2] for f in nn} >= {0, 1} or any(f[0] == "all" and f[1] == "notnamed" and e in subterms(f[2]) for f in st)
        if pred == "notnamed":
            return any(f[0] == "nn" and f[3] == e for f in st)
        if pred == "resolved":
            killed = ("killed", self.el) in st
            return ("unhit", self.el) in st and (killed or ("null", self.el) in st) or ("washit", self.el) in st and not killed
        if pred == "reset":
            return ("reset", self.el) in st
        return False

    def key(self, e):
        return deep_strip(e)

    def is_cb(self, L):
        if not (L.kind.startswith("callback") and L.elem == ("elem", self.tree)):
            return False
        if id(L) not in self.pairwise:
            e2 = ("elem2", self.tree)
            self.pairwise[id(L)] = any(e2 in subterms(deep_strip(a)) for ev, _ in events(L.body) for a in [ev.obj] + list(ev.args or []))
        return self.pairwise[id(L)]

    def loop_iter(self, L, st):
        r = QFlow.loop_iter(self, L, st)
        if self.is_cb(L):
            r = tuple(frozenset(f for f in s if f[0] not in self.PAIR and not (f[0] == "all" and f[1] in ("nodis", "notnamed"))) for s in r)
        return r

    def iter_end(self, L, st):
        if self.is_cb(L):
            self.cb = L
            self.ends.append((L, st))
        return QFlow.iter_end(self, L, st)

    def event(self, ev, st):
        short = ev.name.split("::")[-1]
        if ev.kind == "call" and short == "operator()" and ev.name.startswith("std::function") and ev.args and any(self.side(a) in ("a", "b") for a in ev.args):
            self.creates.append((ev, st))
            return (st | {("created",)},)
        op = container_event(ev, self.reg)
        if op in ("find",):
            o = self.order(ev.args[0])
            return (frozenset(f for f in st if f[0] != "last") | {("looked", o), ("last", o)},)
        if op in INSERT and any(self.side(x) in ("a", "b") for a in ev.args for x in subterms(deep_strip(a))):
            key = self.order(ev.args[0])
            self.inserts.append((ev, key, st))
            add = {("registered",)}
            for a in ev.args[1:]:
                for x in subterms(a):
                    if x and x[0] == "fields" and any(isinstance(f, tuple) and f[0] == self.flag and f[1] == ("lit", True) for f in x[1:]):
                        add.add(("marked",))
            return (st | add,)
        if ev.kind == "write" and isinstance(ev.obj, tuple) and ev.obj[0] == "fld" and ev.obj[2] == self.flag:
            base = deep_strip(ev.obj[1])
            if base in (self.el, ("fld", self.el, "std::pair::second")):
                if ev.args[0] == ("lit", True):
                    self.marks.append((ev, st))
                    return (st | {("marked",)},)
                if ev.args[0] == ("lit", False):
                    return (st | {("reset", self.el)},)
                return (frozenset(f for f in st if f[0] != "reset"),)
        if ev.kind == "write" and isinstance(ev.obj, tuple) and ev.obj[0] == "fld" and ev.obj[2] == "simu::PhysicsObject::killed_" and ev.args[0] == ("lit", True):
            if self.el in subterms(deep_strip(ev.obj)):
                self.kills.append((ev, st))
                return (st | {("killed", self.el)},)
        if ev.kind == "call" and short == "updateAndCollide":
            self.pass_at.append((ev, st))
            return (st | {("passed",)},)
        return (st,)


def owner_key_is(t, el, ptr):
    return isinstance(t, tuple) and el in subterms(t) and (t[0] == "fld" and (t[2] == ptr or t[2] == "std::pair::second") or t == el)


def rules(p, rep):
    reg, cls, flag, ptr = field_names(p)
    b, t, ctx = tree_of(p, rep, "simu::World::step")
    g = G(p, reg, flag, ptr)
    ex = g.run(t, frozenset([frozenset()]))
    if g.cb is None:
        raise AnalysisBroken("the collision pass no longer reports pairs to a callback analysed in place")
    w = g.cb.where()
    # 1. what happens to a reported pair
    for L, st in g.ends:
        handled = ("marked",) in st
        skipped_ok = ("same",) in st or {("fixed", "A"), ("fixed", "B")} <= st or any(f[0] == "dis" and any(n[0] == "naming" and n[1] == f[1] for n in st) for f in st)
        rep.check(handled or skipped_ok, "pair-not-lost", "end of callback", w,
                  "a reported pair is ignored on a path where neither both colliders belong to one body, nor both bodies are structural, nor a constraint between the bodies disables contacts")
        if handled:
            rep.check(("diff",) in st, "no-contact-within-a-body", "end of callback", w, "a pair is given a contact on a path where the two bodies were not established different")
            rep.check(any(f[0] == "all" and f[1] == "nodis" for f in st), "disabled-pairs-ignored", "end of callback", w,
                      "a pair is given a contact on a path where the constraints between the two bodies were not all examined")
            rep.check(("created",) in st or any(f[0] == "f" for f in st), "marks-existing-contact", "end of callback", w, "a pair is marked on a path where no contact exists for it")
        rep.check(("created",) not in st or ("registered",) in st, "created-is-registered", "end of callback", w, "a contact is created on a path that does not put it in the registry")
    for ev, st in g.creates:
        looked = {f[1] for f in st if f[0] == "looked"}
        nf = {f[1] for f in st if f[0] == "nf"}
        rep.check({"ab", "ba"} <= looked and "ab" not in {f[1] for f in st if f[0] == "f"} and "ba" not in {f[1] for f in st if f[0] == "f"} and nf,
                  "one-contact-per-pair", ev.where(), ev.where(), "a contact is created on a path where the pair was not looked up, in both orders, and found missing")
        rep.check(("movable", "A") in st or ("movable", "B") in st, "structural-pairs-ignored", ev.where(), ev.where(),
                  "a contact is created on a path where both bodies may be structural, and cannot be constrained")
        rep.check(("created",) not in st, "one-contact-per-pair", ev.where() + " once", ev.where(), "two contacts may be created for one reported pair")
        sides = {g.side(a) for a in ev.args} & {"a", "b"}
        rep.check(sides == {"a", "b"}, "contact-of-the-pair", ev.where(), ev.where(), "the new contact is not made of the two reported colliders")
    for ev, key, st in g.inserts:
        rep.check(key in ("ab", "ba"), "registered-under-the-pair", ev.where(), ev.where(), "the contact is registered under another key than the pair of colliders")
    # 2. the sweep
    for ev, st in g.pass_at:
        pass
    reset_before = bool(g.pass_at) and all(("all", "reset", g.el) in st for _, st in g.pass_at)
    for k in ("n", "r"):
        for st in ex.get(k, ()):
            if ("passed",) not in st:
                continue
            rep.check(("all", "resolved", g.el) in st, "unreported-killed-reported-kept", "exit of step", "World::step",
                      "after the collision pass a contact whose pair was not reported may survive, or one whose pair was reported may be killed")
            rep.check(("all", "reset", g.el) in st or reset_before, "report-forgotten", "exit of step", "World::step",
                      "the mark of a reported pair may survive into the next collision pass")
    rep.floor("one-contact-per-pair", 2)
    rep.floor("unreported-killed-reported-kept", 1)
    rep.floor("registered-under-the-pair", 1)


RULES = [rules]
