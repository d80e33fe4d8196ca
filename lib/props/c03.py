"""C03: colliders, their world-space geometry and the broad-phase index."""
from world import *

EXPLANATION = (
    "Typestate dataflow over the inlined bodies of every function that adds or removes a collider, over the destructor of "
    "a body and over the whole step: a write of a body's pose makes its colliders stale, a full loop refreshing every "
    "collider of that body makes them fresh; the index may only be given fresh boxes, and every function must leave no "
    "stale collider behind. Membership of the index is matched with membership of the list of colliders.")
ASSUMPTIONS = ["the broad-phase tree itself honours emplace/erase/updateAndCollide (properties about the tree)"]

LIST = "simu::Colliders::colliders_"
POSE = "simu::Body::position_"
TREE = "simu::World::colliderTree_"
BOX = "simu::Collider::boundingBox_"
LOC = "simu::Collider::treeLocation_"
INS = {"emplace_back", "push_back", "emplace_front", "push_front", "emplace", "insert", "splice"}
DEL = {"erase", "remove", "remove_if", "pop_back", "pop_front", "clear", "erase_if", "splice", "swap", "operator=", "assign", "resize"}


def deep(t):
    return deep_strip(t)


def list_of(t):
    """body owning the collider list term t"""
    t = deep(t)
    if isinstance(t, tuple) and t[0] == "fld" and t[2] == LIST:
        c = t[1]
        if isinstance(c, tuple) and c[0] == "fld" and c[2] == "simu::Body::colliders_":
            return c[1]
    return None


def is_tree(t):
    t = deep(t)
    return isinstance(t, tuple) and t[0] == "fld" and t[2] == TREE


def refusing(p):
    """functions of the repository that may throw, but for the counted argument lists of matrices"""
    if hasattr(p, "_refusing"):
        return p._refusing
    calls, out = {}, set()

    def go(e, i):
        if isinstance(e, list):
            for x in e:
                go(x, i)
        elif isinstance(e, dict):
            if e.get("k") == "throw":
                out.add(i)
            c = e.get("callee")
            if isinstance(c, dict) and c.get("fn"):
                calls.setdefault(i, set()).add(c["fn"])
            for v in e.values():
                if isinstance(v, (dict, list)):
                    go(v, i)
    for f in p.functions.values():
        if not f["name"].startswith(("simu::Matrix", "simu::Vector", "simu::MatrixData")):
            go([f.get("body"), f.get("inits")], f["id"])
    while True:
        more = {i for i, cs in calls.items() if i not in out and cs & out}
        if not more:
            break
        out |= more
    p._refusing = out
    return out


class G(QFlow):
    """stale(B): the pose of B was written after its colliders were refreshed"""
    preds = ("fresh", "untreed", "killedif")
    outer_facts = ("untreed", "treeerase", "box")

    def __init__(self, p):
        self.p = p
        self.posewrites = []
        self.inserted = []    # (ev, state)
        self.erased = []
        self.listadds = []
        self.listdels = []
        self.collides = []
        self.updates = 0
        self.refused = []

    # -- facts
    def holds(self, pred, elem, st):
        e = deep(elem)
        if pred == "fresh":
            return ("box", e) in st
        if pred == "untreed":
            return ("untreed", e) in st
        if pred == "killedif":
            return ("killed", e) in st or {f[2] for f in st if f[0] == "notnamed" and f[1] == e} >= {0, 1} or \
                any(f[0] == "notnamedall" and f[1] == e for f in st)
        return False

    def loop_iter(self, L, st):
        if L.elem is not None:
            ren = {}
            for f in st:
                if f[:2] == ("miss", "stale") and self.mentions(f[2], L.elem):
                    ren[f] = ("miss", "stale", ("some",), f[3])
            if ren:
                st = frozenset(ren.get(f, f) for f in st)
        return QFlow.loop_iter(self, L, st)

    def loop_exit(self, L, st):
        for s in QFlow.loop_exit(self, L, st):
            if L.elem is not None:
                e = deep(L.elem)
                if isinstance(e, tuple) and e[0] == "elem":
                    b = list_of(e[1])
                    if b is not None and ("all", "fresh", self.key(L.elem)) in s:
                        s = frozenset(f for f in s if not (f[:2] == ("miss", "stale") and f[2] == b))
                        if L.cover == "full":
                            self.updates += 1
                    elif b is not None:
                        s = frozenset(f for f in s if not (f[:2] == ("all", "fresh")))
            yield s

    def stale(self, st, body, ev, drop=True):
        st = frozenset(f for f in st if not (f[:2] == ("all", "fresh")) and f[0] != "box")
        return st | {("miss", "stale", deep(body), ev.where())}

    def assume(self, term, truth, st, atom):
        neg, t = canon_cmp(term)
        if neg:
            truth = not truth
        if t[0] == "op" and t[1] == "==" and not truth:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                # contact->colliders()[i] != collider
                if isinstance(a, tuple) and a[0] == "idx" and "colliders_" in show(a[1]) and a[2][0] == "lit":
                    base = contact_of(a)
                    if base is not None:
                        return st | {("notnamed", base, a[2][1])}
                if isinstance(a, tuple) and a[0] == "elem" and "colliders_" in show(a[1]) and list_of(a[1]) is None:
                    base = contact_of(a)
                    if base is not None:
                        return st | {("notnamed1", a)}
        return st

    def event(self, ev, st):
        short = ev.name.split("::")[-1]
        o = ev.obj
        if ev.kind == "call" and any(f[:2] == ("miss", "untracked") for f in st):
            cal = ev.extra or (ev.node or {}).get("callee") or {}
            if isinstance(cal, dict) and cal.get("fn") in refusing(self.p) and world_opaque(self.p.functions[cal["fn"]]) and self.p.functions[cal["fn"]].get("clsPlain") != "simu::RTree":
                self.refused.append(ev)
        # pose
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] == POSE:
            if ev.name == "init":
                return (st,)
            self.posewrites.append(ev)
            return (self.stale(st, o[1], ev),)
        if ev.kind == "call" and isinstance(o, tuple) and deep(o)[0] == "fld" and deep(o)[2] == POSE and self.mutates(ev):
            self.posewrites.append(ev)
            return (self.stale(st, deep(o)[1], ev),)
        # geometry refreshed
        if isinstance(o, tuple) and o[0] == "fld" and o[2] == BOX and (ev.kind == "write" and ev.name != "init" or short == "operator="):
            return (st | {("box", deep(o[1]))},)
        # kills
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] == "simu::PhysicsObject::killed_" and ev.args[0] == ("lit", True):
            return (st | {("killed", deep(o[1]))},)
        # membership of the list
        if ev.kind == "call" and o is not None and list_of(o) is not None:
            b = list_of(o)
            if short in INS:
                self.listadds.append(ev)
                st = frozenset(f for f in st if not (f[:2] == ("all", "fresh")))
                return (st | {("added", b), ("miss", "untracked", b, ev.where()), ("miss", "stale", b, ev.where())},)
            if short in DEL:
                x = deep(ev.args[-1]) if ev.args else None
                self.listdels.append((ev, b, x, st))
                return (st,)
        # the index
        if ev.kind == "call" and o is not None and is_tree(o):
            if short in ("emplace", "insert"):
                self.inserted.append((ev, st))
                st = frozenset(f for f in st if f[:2] != ("miss", "untracked"))
                return (st | {("inserted", deep(ev.res))},)
            if short in ("erase", "remove", "extract"):
                a = deep(ev.args[0]) if ev.args else None
                x = a[1] if isinstance(a, tuple) and a[0] == "fld" and a[2] == LOC else None
                self.erased.append((ev, x, st))
                if x is not None:
                    return (st | {("untreed", x), ("treeerase", x)},)
                return (st,)
            if short in ("updateAndCollide", "update"):
                self.collides.append((ev, st))
                return (st,)
        if isinstance(o, tuple) and o[0] == "fld" and o[2] == LOC and (ev.kind == "write" and ev.name != "init" or short == "operator="):
            return (st | {("located", deep(o[1]), deep(ev.args[0]))},)
        return (st,)

    def mutates(self, ev):
        cal = ev.extra or (ev.node or {}).get("callee") or {}
        fn = self.p.functions.get(cal.get("fn"))
        if fn is None:
            return ev.name.split("::")[-1] in ("advance", "setLocalCentroid", "operator=")
        return not fn.get("const")


def contact_of(t):
    """contact object whose two colliders are compared"""
    t = deep(t)
    while isinstance(t, tuple) and t[0] in ("idx", "elem", "fld"):
        if t[0] == "elem" and isinstance(t[1], tuple) and t[1][0] == "fld" and t[1][2] == "simu::Body::contacts_":
            return t
        t = t[1]
    return None


def where(fn):
    return "%s:%s (in %s)" % (rel(fn["file"]), fn["line"], fn["name"])


def candidates(p):
    """entry points: methods of the physics classes that (with callees) touch poses or collider lists"""
    names = ["simu::World::step"]
    for f in p.functions.values():
        if f.get("clsPlain") == "simu::Body" and f.get("body") and not f.get("lambda") and f["file"].startswith(p_repo()):
            if f.get("access") == "private":
                continue
            names.append(f)
    return names


def p_repo():
    import facts
    return facts.REPO


def rules(p, rep):
    nadd = nrem = npose = 0
    for fn in candidates(p):
        b, t, ctx = tree_of(p, None, fn)
        fn = b.p.fn(fn) if isinstance(fn, str) else fn
        name = fn["name"]
        isctor = name.split("::")[-1] == "Body"
        isdtor = "~" in name
        g = G(p)
        ex = g.run(t, frozenset([frozenset()]))
        if not (g.posewrites or g.listadds or g.listdels or g.inserted or g.erased or g.collides):
            continue
        rep.builder(b)
        npose += len(g.posewrites)
        exits = [s for k in ("n", "r", "rt", "rf") for s in ex.get(k, ())]
        # no stale collider when the function returns
        for ev in g.posewrites:
            rep.ok("pose-write-refreshes-colliders", "%s from %s" % (ev.where(), name))
        if not isdtor:
            for s in exits:
                for f in s:
                    if f[:2] == ("miss", "stale"):
                        # a removal that leaves no collider has nothing to refresh
                        rep.bad("pose-write-refreshes-colliders", f[3], "reached from %s: a body's pose or collider list changes here and a path returns without refreshing every collider of that body" % name,
                                key="pose-write-refreshes-colliders|%s|%s" % (f[3], name))
        for ev, s in g.collides:
            bad = [f for f in s if f[:2] == ("miss", "stale")]
            rep.check(not bad, "fresh-before-collision-pass", ev.where() + " from " + name, ev.where(),
                      "the collision pass runs while colliders moved at %s were not refreshed" % (bad[0][3] if bad else ""))
        # additions
        for ev, s in g.inserted:
            nadd += 1
            bad = [f for f in s if f[:2] == ("miss", "stale")]
            rep.check(not bad, "indexed-with-fresh-box", ev.where() + " from " + name, ev.where(),
                      "a collider enters the broad-phase index before its world-space geometry was refreshed (change at %s)" % (bad[0][3] if bad else ""))
            a = [deep(x) for x in ev.args]
            good = len(a) >= 2 and a[0] == ("fld", a[-1], BOX)
            rep.check(good, "indexed-with-own-box", ev.where() + " from " + name, ev.where(),
                      "a collider is put in the index with another box than its own")
            for s2 in exits:
                rep.check(("located", a[-1], deep(ev.res)) in s2 or isdtor, "index-location-recorded", name, ev.where(),
                          "the index location of a new collider is not recorded on every path")
        if g.listadds and not isctor:
            for s in exits:
                bad = [f for f in s if f[:2] == ("miss", "untracked")]
                rep.check(not bad, "listed-implies-indexed", name, bad[0][3] if bad else where(fn),
                          "a collider joins a body on a path where it does not enter the broad-phase index")
            # a description that is refused leaves nothing behind
            for s in ex.get("t", ()):
                bad = [f for f in s if f[:2] == ("miss", "untracked")]
                rep.check(not bad, "refused-leaves-nothing", name, bad[0][3] if bad else where(fn),
                          "a collider is listed here and something that can refuse it comes after, before it enters the broad-phase index")
            for ev in g.refused:
                rep.bad("refused-leaves-nothing", ev.where(), "a collider is listed in its body before this call, which may refuse it")
        # removals
        for ev, bdy, x, s in g.listdels:
            if isctor:
                continue
            nrem += 1
            erased = {f[1] for f in s if f[0] == "untreed"}
            # the erased element is the one compared equal to the collider removed from the index
            ok = bool(erased) and ev.name.split("::")[-1] not in ("clear", "operator=", "swap", "assign", "resize", "splice")
            rep.check(ok, "unindexed-before-destroyed", ev.where() + " from " + name, ev.where(),
                      "a collider is destroyed on a path where it was not removed from the broad-phase index")
        for ev, x, s in g.erased:
            rep.check(x is not None, "erases-recorded-location", ev.where() + " from " + name, ev.where(),
                      "the index entry erased is not the recorded location of the collider")
            if not isdtor:
                for s2 in exits:
                    rep.check(any(f[0] == "all" and f[1] == "killedif" and "contacts_" in show(f[2]) for f in s2), "contacts-of-removed-collider-killed", name, ev.where(),
                              "a collider is removed on a path where the contacts naming it are not all killed")
        if isdtor:
            for s in exits:
                rep.check(any(f[0] == "all" and f[1] == "untreed" and f[2][0] == "elem" and list_of(f[2][1]) == ("this",) for f in s), "destroyed-body-leaves-index", name, where(fn),
                          "a destroyed body may leave colliders in the broad-phase index")
    if not npose:
        raise AnalysisBroken("no write of a body pose found")
    if not g:
        raise AnalysisBroken("no candidate")
    rep.floor("fresh-before-collision-pass", 1)
    rep.floor("indexed-with-fresh-box", 1)
    rep.floor("unindexed-before-destroyed", 1)
    rep.floor("destroyed-body-leaves-index", 1)


class U(QFlow):
    preds = ("moved",)

    def __init__(self):
        self.boxes = []

    def holds(self, pred, elem, st):
        return ("moved", deep(elem)) in st

    def event(self, ev, st):
        short = ev.name.split("::")[-1]
        o = ev.obj
        if (ev.kind == "write" or short == "operator=") and isinstance(o, tuple) and ev.args:
            for x in subterms(deep(ev.args[0])):
                if x[0] == "elem" and isinstance(x[1], tuple) and x[1][0] == "fld" and x[1][2] == "simu::Collider::local_" and \
                        "simu::Collider::transformed_" in repr(o) and any(y == ("param", "transform") or y[0] == "param" for y in subterms(deep(ev.args[0]))):
                    st = st | {("moved", x)}
            if isinstance(o, tuple) and o[0] == "fld" and o[2] == BOX and ev.name != "init":
                self.boxes.append((ev, st))
                return (st | {("boxed",)},)
        if ev.kind == "call" and short in ("push_back", "emplace_back") and "transformed_" in repr(o) and ev.args:
            for x in subterms(deep(ev.args[-1])):
                if x[0] == "elem" and isinstance(x[1], tuple) and x[1][0] == "fld" and x[1][2] == "simu::Collider::local_":
                    st = st | {("moved", x)}
        return (st,)


def update(p, rep):
    """refreshing a collider moves every vertex, then recomputes the box from the moved vertices"""
    n = 0
    for fn in p.functions.values():
        if fn.get("clsPlain") != "simu::Collider" or not fn.get("body"):
            continue
        b, t, ctx = tree_of(p, None, fn)
        u = U()
        ex = u.run(t, frozenset([frozenset()]))
        if not u.boxes:
            continue
        n += 1
        rep.builder(b)
        for ev, s in u.boxes:
            rep.check(any(f[:2] == ("all", "moved") for f in s), "box-after-every-vertex", fn["name"], ev.where(),
                      "the bounding box is computed on a path where not every vertex was transformed")
            srcs = [x for a in ev.args for x in provenance(t, a) if x[0] == "fld"]
            rep.check(any(x[2] == "simu::Collider::transformed_" for x in srcs) and not any(x[2] == "simu::Collider::local_" for x in srcs),
                      "box-of-moved-vertices", fn["name"], ev.where(), "the bounding box is not computed from the transformed vertices")
        for k in ("n", "r"):
            for s in ex.get(k, ()):
                rep.check(("boxed",) in s, "box-after-every-vertex", fn["name"] + " exit", where(fn), "a path refreshes the vertices but not the bounding box")
    if not n:
        raise AnalysisBroken("no function refreshes the bounding box of a collider")
    # the transform given to the colliders is the current local-to-world transform of the body
    b, t, ctx = tree_of(p, rep, "simu::Body::update")
    m = 0
    for ev, ps in events(t):
        if ev.name == "simu::Collider::update":
            m += 1
            a = deep(ev.args[0])
            good = isinstance(a, tuple) and a[0] == "call" and a[1] == "simu::Position::toWorldSpace" and a[2] == ("fld", ("this",), POSE)
            rep.check(good, "current-transform", ev.where(), ev.where(), "colliders are refreshed with something else than the body's current local-to-world transform")
    if not m:
        raise AnalysisBroken("Body::update no longer reaches the colliders")


RULES = [rules, update]
