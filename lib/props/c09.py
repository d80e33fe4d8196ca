"""C09: force fields reach exactly the colliders they should, once per step."""
from island import *

EXPLANATION = (
    "Dataflow over World::step with callees inlined: every application of a force field must be on an element of the index (in "
    "the global case) or on a collider the index reports for the field's own region (in the regional case), under the facts that "
    "its body is neither asleep nor structural, with the step's time step; quantified facts show that every field visits every "
    "such collider before constraints are solved. An effect analysis bounds what the supplied fields write.")
ASSUMPTIONS = ["the index reports exactly the colliders overlapping a region (tree properties)", "fields supplied by the user do not add or remove colliders"]


class S(QFlow):
    preds = ("done", "field")
    both = ("kind", "asleep", "struct", "applied", "miss")
    may = ("passed",)

    def __init__(self, p, ow, tree_term, glob):
        self.p, self.ow, self.tt, self.glob = p, ow, tree_term, glob
        self.applies, self.solves, self.regions = [], [], []

    def coll(self, t):
        """t is the collider of the current element of the index"""
        t = deep_strip(t)
        while isinstance(t, tuple) and t[0] == "call" and t[1].split("::")[-1] in ("operator*", "operator->"):
            t = t[2]
        return isinstance(t, tuple) and t[0] in ("elem", "elem2") and t[1] == self.tt

    def body(self, t):
        t = deep_strip(t)
        return isinstance(t, tuple) and t[0] == "fld" and t[2] == "simu::Collider::body_" and self.coll(t[1])

    def field(self, t):
        k = owner_key(self.ow, deep_strip(t)) if isinstance(t, tuple) else None
        return k if k and k[0] == self.ffield else None

    def is_coll_loop(self, L):
        return L.elem is not None and self.coll(L.elem)

    def is_field_loop(self, L):
        return L.elem is not None and self.field(L.elem) is not None

    def loop_iter(self, L, st):
        if self.is_coll_loop(L):
            return (frozenset(f for f in st if f[0] not in ("asleep", "struct", "applied")),)
        if self.is_field_loop(L):
            return (frozenset(f for f in st if f[0] not in ("kind", "asleep", "struct", "applied", "reported", "passed") and not (f[0] in ("all", "miss") and f[1] == "done")),)
        return QFlow.loop_iter(self, L, st)

    def holds(self, pred, elem, st):
        if pred == "done":
            return not self.coll(elem) or ("applied",) in st or ("asleep", True) in st or ("struct", True) in st
        if pred == "field":
            if self.field(elem) is None:
                return True
            return ("kind", True) in st and any(f[:2] == ("all", "done") for f in st) or ("kind", False) in st and ("reported",) in st
        return True

    def key(self, e):
        return ("coll",) if self.coll(e) else e

    def loop_exit(self, L, st):
        out = list(QFlow.loop_exit(self, L, st))
        if self.is_coll_loop(L):
            res = []
            for s in out:
                s = frozenset(f for f in s if f[0] not in ("asleep", "struct", "applied"))
                missed = ("miss", "done", ("coll",)) in st
                s = s | {("passed",)}
                if L.kind.startswith("callback") and not missed:
                    s |= {("reported",)}
                res.append(s)
            return res
        return out

    def assume(self, term, truth, st, atom):
        neg, t = canon_cmp(term)
        if neg:
            truth = not truth
        if t[0] == "op" and t[1] == "==":
            a, b = deep_strip(t[2]), deep_strip(t[3])
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] == "fld" and x[2].endswith("::type") and self.field_of(x):
                    if y == self.glob:
                        return self.decide(st, "kind", truth)
                    if isinstance(y, tuple) and y[0] == "lit" and truth:
                        return self.decide(st, "kind", False)
                    if isinstance(y, tuple) and y[0] == "lit":
                        # two kinds of domain
                        return self.decide(st, "kind", True)
                if isinstance(x, tuple) and x[0] == "fld" and x[2] == "simu::Body::dominance_" and self.body(x[1]) and y in (("lit", 0), ("lit", 0.0), ("zero",)):
                    return self.decide(st, "struct", truth)
        if t[0] == "fld" and t[2] == "simu::Body::isAsleep_" and self.body(t[1]):
            return self.decide(st, "asleep", truth)
        return st

    def field_of(self, x):
        while isinstance(x, tuple) and x[0] == "fld":
            x = deep_strip(x[1])
            if self.field(x):
                return x
        return None

    def decide(self, st, k, v):
        if (k, not v) in st:
            return None
        return st | {(k, v)}

    def event(self, ev, st):
        short = ev.name.split("::")[-1]
        if ev.kind == "call":
            cls = "::".join(ev.name.split("::")[:-1])
            if short == "apply" and derives(self.p, cls, "simu::ForceField"):
                self.applies.append((ev, st, self.active))
                return (st | {("applied",)},)
            if is_solver(self.p, ev):
                self.solves.append((ev, st))
        return (st,)


def effects(p, fn, depth=0, seen=None):
    """fields of repository classes that fn may write, transitively"""
    seen = seen if seen is not None else set()
    b = Builder(p, opaque=lambda f: any(x in f["name"] for x in ("Matrix", "Profiler")) or "/math/" in f["file"])
    t, ctx = b.root(fn)
    out = []
    for ev, ps in events(t):
        o = deep_strip(ev.obj)
        if ev.kind == "write" and ev.name != "init" and isinstance(o, tuple) and rooted(o):
            out.append((field_path(o), ev))
        if ev.kind == "call" and isinstance(o, tuple) and rooted(o):
            cal = ev.extra or (ev.node or {}).get("callee") or {}
            g = p.functions.get(cal.get("fn"))
            opaque_call = not (g and g.get("body")) or b.opaque(g)
            isconst = g.get("const") if g else ev.name.split("::")[-1] in ("size", "empty", "begin", "end", "at", "operator[]", "find", "operator*", "operator->", "get", "data")
            if opaque_call and not isconst and o[0] == "fld" and not (g and g.get("ctor")):
                out.append((field_path(o), ev))
    return out, b


def rooted(o):
    while isinstance(o, tuple) and o[0] in ("fld", "idx", "elem", "sel", "copy"):
        o = o[1]
    return isinstance(o, tuple) and o[0] in ("param", "this", "call", "global")


def field_path(o):
    """first field on the way from an object of the world"""
    path = []
    while isinstance(o, tuple) and o[0] in ("fld", "idx", "elem", "sel", "copy"):
        if o[0] == "fld":
            path.append(o[2])
        o = o[1]
    return tuple(reversed(path))


def rules(p, rep):
    ow = owners(p)
    fo = [o for o in ow if derives(p, o.cls, "simu::ForceField")]
    if len(fo) != 1:
        raise AnalysisBroken("the list of force fields of the world was not found")
    # the value that stands for a global domain
    b0 = Builder(p)
    t0, c0 = b0.root("simu::ForceField::global")
    rets = [n.val for n, _ in walk(t0) if isinstance(n, Ret) and n.val is not None]
    glob = None
    for r in rets:
        for x in subterms(deep_strip(r)):
            if x[0] == "lit" and isinstance(x[1], int) and not isinstance(x[1], bool):
                glob = x
                break
            if x[0] == "zero":
                glob = ("lit", 0)
                break
    if glob is None:
        for ev, _ in events(t0):
            for a in ev.args or []:
                a = deep_strip(a)
                if isinstance(a, tuple) and a[0] == "lit" and glob is None:
                    glob = a
    glob = glob or ("lit", 0)
    b, t, ctx = tree_of(p, rep, "simu::World::step", opaque=opaque_solver(p), key="c06")
    fn = p.fn("simu::World::step")
    dt = ("param", fn["params"][0]["name"])
    tt = None
    for f in p.rec("simu::World")["fields"]:
        if f["type"].startswith("simu::") and "Tree" in f["type"].split("<")[0]:
            tt = ("fld", ("this",), "simu::World::" + f["name"])
    if tt is None:
        raise AnalysisBroken("the index of the world was not found")
    fl = S(p, ow, tt, glob)
    fl.ffield = fo[0].field
    fl.run(t, frozenset([frozenset()]))
    callbacks = {}
    for ev, ps in events(t):
        if ev.kind == "call" and ev.name.split("::")[-1] == "forEachIn" and deep_strip(ev.obj) == tt:
            a = deep_strip(ev.args[0]) if ev.args else None
            f = fl.field_of(a) if isinstance(a, tuple) else None
            good = f is not None and isinstance(a, tuple) and a[0] == "fld" and a[2].endswith("::region")
            rep.check(good, "region-is-the-fields", ev.where(), ev.where(), "the region given to the index is not the region of the force field")
    for ev, st, act in fl.applies:
        i = ev.where()
        f = fl.field(ev.obj)
        rep.check(f is not None, "apply-on-owned-field", i, i, "a force that is not owned by the world is applied")
        okc = ev.args and fl.coll(ev.args[0])
        rep.check(bool(okc), "apply-on-indexed-collider", i, i, "a force field is applied to something that is not a collider of the index")
        rep.check(("asleep", False) in st, "not-asleep", i, i, "a force field may be applied to a collider of a sleeping body")
        rep.check(("struct", False) in st, "not-structural", i, i, "a force field may be applied to a collider of a structural body")
        rep.check(len(ev.args) > 1 and (deep_strip(ev.args[1]) == dt or (dt in provenance(t, ev.args[1]) and
                  not any(x[0] == "op" and x[1] in ("+", "-", "*", "/") for x in provenance(t, ev.args[1])))), "same-dt", i, i, "a force field is not given the time step of the step")
        rep.check(("applied",) not in st and ("passed",) not in st, "apply-once", i, i, "a force field may be applied twice to a collider in one step")
        kinds = [k for k in ("kind",)]
        isg = ("kind", True) in st
        isr = ("kind", False) in st
        rep.check(isg or isr, "domain-respected", i, i, "a force field is applied without regard to the type of its domain")
    loops = {}
    for n, ps in walk(t):
        if isinstance(n, Loop) and fl.is_coll_loop(n) and any(e.name.split("::")[-1] == "apply" for e, _ in events(n.body)):
            loops[id(n)] = n
    for ev, st, act in fl.applies:
        pass
    for n in loops.values():
        sts = [(ev, st) for ev, st, _ in fl.applies if ev in [e for e, _ in events(n.body)]]
        for ev, st in sts:
            if n.kind.startswith("callback"):
                rep.check(("kind", False) in st and "forEachIn" in n.kind, "domain-respected", "region " + n.where(), n.where(), "a global force field is applied only to part of the colliders")
            else:
                rep.check(("kind", True) in st, "domain-respected", "global " + n.where(), n.where(), "a force field with a region is applied to every collider")
    for ev, st in fl.solves:
        rep.check(("all", "field", ("elem", fo[0].term)) in st, "every-field-every-collider", ev.where(), ev.where(),
                  "constraints are solved before every force field acted on every awake, non-structural collider of its domain")
    n = 0
    for q in p.functions.values():
        cls = q.get("clsPlain") or ""
        if q["name"].split("::")[-1] == "apply" and q.get("body") and derives(p, cls, "simu::ForceField") and cls != "simu::ForceField":
            eff, bb = effects(p, q)
            rep.builder(bb)
            n += 1
            for path, ev in eff:
                okk = any(x in ("simu::Body::velocity_",) for x in path) or path and path[-1] in ("simu::Body::isAsleep_", "simu::Body::timeImmobile_")
                rep.check(okk, "field-changes-only-velocity", "%s writes %s" % (cls, ".".join(x.split("::")[-1] for x in path)), ev.where(),
                          "applying %s changes something else than the velocity and wakefulness of the body" % cls)
    for r, k in (("apply-on-owned-field", 1), ("not-asleep", 1), ("every-field-every-collider", 4), ("region-is-the-fields", 1), ("domain-respected", 3), ("field-changes-only-velocity", 2)):
        rep.floor(r, k)


RULES = [rules]
