"""C04: the phases of a step."""
from world import *

EXPLANATION = (
    "Dataflow over World::step with every repository callee inlined. Hook calls are matched to the owning container of the "
    "object they run on; loops that visit a whole container without break turn a per-element fact into a fact about all "
    "elements. Every event that does simulation work (applying a force, a solver callback, a write of a pose or velocity, "
    "the collision pass) must be dominated by a positive time step, by all preStep hooks, and precede all postStep hooks.")
ASSUMPTIONS = ["hooks supplied by the user do not themselves step the world",
               "work done inside destructors of erased objects is not part of the step"]

SOLVER = ("initSolve", "warmstart", "solveVelocities", "solvePositions", "isActive")
POSEVEL = ("simu::Body::position_", "simu::Body::velocity_")


def mutating(p, ev):
    cal = ev.extra or (ev.node or {}).get("callee") or {}
    fn = p.functions.get(cal.get("fn"))
    if fn is None:
        return ev.name.split("::")[-1] in ("advance", "setLocalCentroid", "operator=", "setLinear", "setAngular")
    return not fn.get("const")


def work(p, ev):
    """kind of simulation work done by an event"""
    short = ev.name.split("::")[-1]
    o = deep_strip(ev.obj)
    cls = "::".join(ev.name.split("::")[:-1])
    if ev.kind == "write" and ev.name != "init" or ev.kind == "call" and mutating(p, ev):
        if isinstance(o, tuple) and o[0] == "fld" and o[2] in POSEVEL:
            return "write of " + o[2].split("::")[-1]
    if ev.kind == "call":
        if short == "apply" and derives(p, cls, "simu::ForceField"):
            return "force"
        if short in SOLVER and derives(p, cls, "simu::Constraint"):
            return "solver " + short
        if short in ("updateAndCollide",) and isinstance(o, tuple) and o[0] == "fld" and o[2] == "simu::World::colliderTree_":
            return "collision"
    return None


class S(QFlow):
    may = ("solved", "moved", "posting", "ran", "ranall", "passed")
    preds = ("pre", "post")

    def __init__(self, p, ow, dt):
        self.p, self.ow, self.dt = p, ow, dt
        self.hooks = []
        self.works = []

    def key(self, e):
        k = owner_key(self.ow, e)
        return k[1] if k else e

    def holds(self, pred, elem, st):
        k = self.key(elem)
        return (pred, k) in st or ("null", k) in st

    def assume(self, term, truth, st, atom):
        neg, t = canon_cmp(term)
        if neg:
            truth = not truth
        if t[0] == "op" and t[1] == "==" and t[3] == ("null",) and truth:
            k = owner_key(self.ow, t[2])
            if k:
                return st | {("null", k[1])}
        if t[0] == "op" and t[1] == "<":
            a, b = deep_strip(t[2]), deep_strip(t[3])
            zero = lambda x: x[0] == "zero" or x[0] == "lit" and x[1] == 0
            # 0 < dt, or not (dt <= 0) written not(not(0 < dt))
            if b == self.dt and zero(a):
                if truth:
                    return None if ("nonpos",) in st else st | {("pos",)}
                return None if ("pos",) in st else st | {("nonpos",)}
            if a == self.dt and zero(b) and truth:
                return None if ("pos",) in st else st | {("nonpos",)}
        return st

    def loop_exit(self, L, st):
        ran = {("ranall", f[1], f[2]) for f in st if f[0] == "ran" and L.elem is not None and self.mentions(f[2], L.elem)}
        for s in QFlow.loop_exit(self, L, st):
            yield s | frozenset(ran)

    def event(self, ev, st):
        if ev.kind == "call":
            short = ev.name.split("::")[-1]
            if short in ("preStep", "postStep") and ev.obj is not None:
                tag = short[:-4]
                k = owner_key(self.ow, ev.obj)
                self.hooks.append((ev, tag, k, st))
                if k:
                    if tag == "post":
                        st = st | {("posting",)}
                    return (st | {(tag, k[1]), ("ran", tag, k[1])},)
                return (st,)
        w = work(self.p, ev)
        if w:
            self.works.append((ev, w, st))
            if w.startswith("solver"):
                st = st | {("solved",)}
            if w == "collision":
                st = st | {("collided",), ("passed",)}
            if w.startswith("write"):
                st = st | {("moved",)}
        return (st,)


def rules(p, rep):
    ow = owners(p)
    b, t, ctx = tree_of(p, rep, "simu::World::step")
    fn = p.fn("simu::World::step")
    dt = ("param", fn["params"][0]["name"])
    terms = {x for ev, _ in events(t) for a in (ev.args or []) for x in subterms(deep_strip(a)) if x[0] == "param"}
    dt = next((x for x in terms if x[1] == fn["params"][0]["name"]), dt)
    fl = S(p, ow, dt)
    ex = fl.run(t, frozenset([frozenset()]))
    for ev, tag, k, st in fl.hooks:
        rep.check(k is not None, "hook-on-owned-object", "%s at %s" % (tag, ev.where()), ev.where(), "a %sStep hook is called on something that is not an object owned by the world" % tag)
        if k is None:
            continue
        twice = ("ran", tag, k[1]) in st or ("ranall", tag, k[1]) in st
        rep.check(not twice, "hook-at-most-once", "%sStep of %s at %s" % (tag, k[0], ev.where()), ev.where(),
                  "%sStep may run twice on the same object of %s in one step" % (tag, k[0]))
        if tag == "pre":
            early = [f for f in st if f in (("solved",), ("moved",), ("passed",), ("posting",))]
            rep.check(not early, "prestep-first", "%s at %s" % (k[0], ev.where()), ev.where(), "a preStep hook runs after the simulation work of the step began")
        else:
            rep.check(("collided",) in st or ("nonpos",) in st, "poststep-last", "%s at %s" % (k[0], ev.where()), ev.where(),
                      "a postStep hook runs before the collision pass of a step with a positive time step")
            for o in ow:
                rep.check(("all", "pre", ("elem", o.term)) in st, "all-prestep-before-poststep", "%s before %s" % (o.field, ev.where()), ev.where(),
                          "postStep starts although not every object of %s received preStep" % o.field)
    for ev, w, st in fl.works:
        i = "%s at %s" % (w, ev.where())
        rep.check(("pos",) in st, "work-needs-positive-dt", i, ev.where(), "%s happens on a path where the time step is not known to be positive" % w)
        rep.check(("posting",) not in st, "no-work-after-poststep", i, ev.where(), "%s happens after postStep hooks started" % w)
        for o in ow:
            rep.check(("all", "pre", ("elem", o.term)) in st, "all-prestep-before-work", "%s before %s" % (o.field, i), ev.where(),
                      "%s happens although not every object of %s received preStep" % (w, o.field))
        if w == "force":
            rep.check(("solved",) not in st and ("moved",) not in st, "forces-before-solving", i, ev.where(), "a force is applied after constraints started being solved or bodies moved")
        if w == "collision":
            rep.check(("passed",) not in st, "one-collision-pass", i, ev.where(), "the collision pass may run twice in one step")
    for kk in ("n", "r"):
        for st in ex.get(kk, ()):
            for o in ow:
                for tag in ("pre", "post"):
                    rep.check(("all", tag, ("elem", o.term)) in st, "every-object-gets-hooks", "%sStep of %s" % (tag, o.field), "World::step",
                              "some path through the step does not call %sStep on every object of %s" % (tag, o.field))
            rep.check(("collided",) in st or ("nonpos",) in st, "collision-pass-runs", "exit", "World::step", "a step with a positive time step may return without a collision pass")
    # the time step reaches its users unchanged
    n = 0
    for ev, ps in events(t):
        w = work(p, ev)
        short = ev.name.split("::")[-1]
        if ev.kind == "call" and (w == "force" or w in ("solver warmstart", "solver solveVelocities") or short == "updateTimeImmobile"):
            n += 1
            cand = [a for a, ty in zip(ev.args, argtypes(ev)) if ty in ("float", None)]
            src = set()
            for a in cand[:1] if short == "updateTimeImmobile" else cand[-1:]:
                src |= provenance(t, a)
            okk = dt in src and not any(x[0] == "op" and x[1] in ("+", "-", "*", "/") for x in src)
            rep.check(okk, "same-dt-everywhere", "%s at %s" % (short, ev.where()), ev.where(), "%s does not receive the time step of the step unchanged" % short)
    rep.floor("same-dt-everywhere", 3)
    rep.floor("every-object-gets-hooks", 2 * len(ow))
    rep.floor("work-needs-positive-dt", 8)


def argtypes(ev):
    n = ev.node or {}
    out = []
    for a in n.get("args", []):
        ty = (a.get("t") or "").replace("const ", "").replace("&", "").strip()
        out.append(ty or None)
    while len(out) < len(ev.args):
        out.append(None)
    return out


RULES = [rules]
