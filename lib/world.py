"""Shared vocabulary of the rules about the world: owning containers, the
quantified-fact dataflow and the inlined tree of the simulation step."""
from tree import (Builder, Flow, Ev, CallN, If, Loop, Ret, Brk, Cont, Seq, Switch, Try, CAtom, CCall, walk, events,
                  strip_term, deep_strip, subterms, canon_cmp, show, rel, std_container)
from facts import AnalysisBroken

OPAQUE = ("RTree", "Matrix", "Profiler", "TimeEntry", "ScopedTimer", "FreeListAllocator", "simu::Position::",
          "simu::Velocity::", "simu::Translation::", "simu::Rotation::", "simu::Transform::", "GeometricProperties",
          "MassProperties", "MaterialProperties")


def world_opaque(f):
    return any(x in f["name"] for x in OPAQUE) or "/math/" in f["file"]


_cache = {}


def tree_of(p, rep, name, opaque=world_opaque, key="", **kw):
    k = (id(p), name if isinstance(name, str) else name["id"], key, repr(kw))
    if k not in _cache:
        b = Builder(p, opaque=opaque, **kw)
        t, ctx = b.root(name)
        _cache[k] = (b, t, ctx)
    b, t, ctx = _cache[k]
    if rep is not None:
        rep.builder(b)
    return b, t, ctx


# ------------------------------------------------------------------ type utils
def plain(t):
    t = (t or "").replace("const ", "").replace("volatile ", "").strip()
    while t and t[-1] in "&*":
        t = t[:-1].strip()
    return t


def derives(p, cls, base):
    """cls (plain record name) derives from base (plain)"""
    seen, todo = set(), [cls]
    while todo:
        c = todo.pop()
        if c == base:
            return True
        if c in seen:
            continue
        seen.add(c)
        for r in p.recplain.get(c.split("<")[0], []):
            for b in r.get("bases", []):
                b = b if isinstance(b, str) else b.get("name", b.get("plain", ""))
                todo.append(b.split("<")[0])
    return False


def unique_elem(t):
    """the class owned by the elements of a container type, or None"""
    import re
    m = re.search(r"std::unique_ptr<([\w:]+)", t)
    if m:
        return m.group(1)
    return None


class Owner:
    def __init__(self, field, cls, inner):
        self.field, self.cls, self.inner = field, cls, inner
        self.term = ("fld", ("this",), "simu::World::" + field)

    def __repr__(self):
        return self.field


def owners(p):
    """the containers of the world that own physics objects, found by type"""
    w = p.rec("simu::World")
    out = []
    for f in w["fields"]:
        t = f["type"]
        if not std_container(t):
            continue
        cls, inner = unique_elem(t), None
        if cls is None:
            for r in p.records.values():
                if r["plain"].startswith("simu::") and r["plain"] in t:
                    for g in r["fields"]:
                        if g["type"].startswith("std::unique_ptr"):
                            cls, inner = unique_elem(g["type"]), r["plain"] + "::" + g["name"]
        if cls and derives(p, cls, "simu::PhysicsObject"):
            out.append(Owner(f["name"], cls, inner))
    if len(out) < 4:
        raise AnalysisBroken("world: expected at least four containers owning physics objects, found %s" % out)
    return out


def owner_key(ow, t):
    """(owner, element term) when t denotes an object owned by a container"""
    t = t if isinstance(t, tuple) else None
    if t is None:
        return None
    x = t
    while isinstance(x, tuple):
        if x[0] == "fld" and (x[2].endswith("::second") or any(x[2] == o.inner for o in ow)):
            x = x[1]
            continue
        if x[0] == "copy":
            x = x[1]
            continue
        break
    if not isinstance(x, tuple):
        return None
    y = x
    while isinstance(y, tuple) and y[0] == "sel":
        y = y[1]
    # a selection may already have been resolved down to the owned object
    while isinstance(y, tuple) and y[0] == "fld" and (y[2].endswith("::second") or any(y[2] == o.inner for o in ow)):
        y = y[1]
    if isinstance(y, tuple) and y[0] == "elem":
        for o in ow:
            if y[1] == o.term:
                if x[0] == "sel":
                    return (o.field, ("sel", ("elem", o.term), x[2]))
                return (o.field, ("elem", o.term))
    return None


# --------------------------------------------------- quantified-fact dataflow
class QFlow(Flow):
    """Facts are tuples.  Facts that mention the element of a loop are dropped
    when the next iteration starts; a predicate that holds at the end of every
    iteration of a loop that visits the whole range becomes ('all', pred, elem)
    after the loop."""
    preds = ()
    # facts that a loop nested in another loop over the same range leaves alone
    outer_facts = ()
    active = ()

    # every rule asks for the presence of facts, so a state with fewer facts
    # (and more misses) subsumes one with more
    may = ()          # kinds of facts whose presence only makes things worse
    both = ()         # kinds of facts that matter by presence and by absence

    def reduce(self, S):
        if len(S) < 2:
            return S
        may, both = ("miss",) + self.may, self.both + ("retv",)
        sp = [(frozenset(f for f in s if f[0] not in may and f[0] not in both), frozenset(f for f in s if f[0] in may),
               frozenset(f for f in s if f[0] in both), s) for s in S]
        sp.sort(key=lambda x: len(x[0]))
        out = []
        for a in sp:
            if not any(b[0] <= a[0] and b[1] >= a[1] and b[2] == a[2] for b in out):
                out.append(a)
        return frozenset(x[3] for x in out)

    def node(self, n, S):
        if isinstance(n, Loop):
            saved = self.active
            self.active = saved + (n.elem,)
            try:
                r = Flow.node(self, n, S)
            finally:
                self.active = saved
        elif isinstance(n, CallN) and isinstance(n.ev.res, tuple) and n.ev.res[0] == "bret":
            r = self.bool_call(n, S)
        else:
            r = Flow.node(self, n, S)
        if isinstance(n, (Loop, CallN, If)) and r.get("n"):
            r["n"] = self.reduce(r["n"])
        return r

    def bool_call(self, n, S):
        """remember which paths made the call answer true"""
        v = n.ev.res
        S = self.bind(S, lambda s: self.enter_call(n, s))
        r = self.seq(n.body, S)
        m = set()
        for k in ("n", "r", "rt", "rf"):
            for s in r.get(k, ()):
                s = frozenset(f for f in s if f[:2] != ("retv", v))
                m.add(s | {("retv", v, k == "rt")} if k in ("rt", "rf") else s)
        m = self.bind(frozenset(m), lambda s: self.event(n.ev, s))
        m = self.bind(m, lambda s: self.leave_call(n, s))
        out = {"n": m}
        if r.get("t"):
            out["t"] = r["t"]
        return out

    def assume_deep(self, t, truth, st, atom):
        if st is not None and isinstance(t, tuple) and t[0] == "bret":
            for f in st:
                if f[:2] == ("retv", t):
                    return frozenset(g for g in st if g != f) if f[2] == truth else None
        return Flow.assume_deep(self, t, truth, st, atom)

    def holds(self, pred, elem, st):
        return False

    def key(self, elem):
        return elem

    @staticmethod
    def mentions(f, elem):
        if f == elem:
            return True
        if not isinstance(f, tuple) or f and f[0] == "sel":
            return False
        return any(QFlow.mentions(x, elem) for x in f)

    def loop_iter(self, L, st):
        if L.elem is None:
            return (st,)
        e = L.elem
        nested = self.nested(L)
        return (frozenset(f for f in st if nested and f[0] in self.outer_facts or
                          not (f[0] not in ("miss", "all") and self.mentions(f, e)) and
                          not (f[0] == "all" and f[2] != self.key(e) and self.mentions(f, e))),)

    def nested(self, L):
        return self.active.count(L.elem) > 1

    def loop_enter(self, L, st):
        if L.elem is None:
            return (st,)
        k = self.key(L.elem)
        return (frozenset(f for f in st if not (f[0] == "miss" and f[2] == k)),)

    def iter_end(self, L, st):
        if L.elem is None:
            return (st,)
        k = self.key(L.elem)
        new = [("miss", pr, k) for pr in self.preds if not self.holds(pr, L.elem, st)]
        return (st | frozenset(new),) if new else (st,)

    def loop_break(self, L, st):
        if L.elem is None:
            return (st,)
        k = self.key(L.elem)
        return (st | frozenset(("miss", pr, k) for pr in self.preds),)

    def loop_exit(self, L, st):
        if L.elem is None:
            return (st,)
        k = self.key(L.elem)
        add = []
        if L.cover == "full" and not L.kind.startswith("callback"):
            for pr in self.preds:
                if ("miss", pr, k) not in st:
                    add.append(("all", pr, k))
        nested = self.nested(L)
        st = frozenset(f for f in st if not (f[0] == "miss" and f[2] == k) and
                       (nested and f[0] in self.outer_facts or f[0] == "all" or not self.mentions(f, L.elem)))
        return (st | frozenset(add),)


DESTROYERS = {"erase", "remove", "remove_if", "clear", "pop_back", "pop_front", "resize", "assign", "swap", "extract",
              "splice", "operator=", "reset", "merge", "unique", "erase_if"}


def container_event(ev, term):
    """short name of the operation when ev operates on the container `term`"""
    if ev.kind == "write" and deep_strip(ev.obj) == term:
        return "operator="
    if ev.kind != "call":
        return None
    short = ev.name.split("::")[-1]
    if ev.obj is not None and deep_strip(ev.obj) == term:
        return short
    if ev.obj is None and ev.args and deep_strip(ev.args[0]) == term and ev.name.startswith("std::"):
        return short
    return None


def provenance(tree, term):
    """every term that flows into `term` through local objects, locals and
    results of calls analysed in place (flow-insensitive)"""
    evs = [e for e, _ in events(tree)]
    def root(t):
        while isinstance(t, tuple) and t[0] in ("fld", "idx", "elem", "copy", "sel"):
            t = t[1]
        return t
    local = ("obj", "var", "copy")
    done, todo, out = set(), [deep_strip(term)], set()
    while todo:
        t = todo.pop()
        for x in subterms(t):
            if x in done:
                continue
            done.add(x)
            out.add(x)
            if x[0] in ("obj", "var"):
                for e in evs:
                    if e.obj is not None and root(deep_strip(e.obj)) == x or deep_strip(getattr(e, "res", None)) == x:
                        todo.extend(deep_strip(a) for a in e.args or [] if isinstance(a, tuple))
    return out
