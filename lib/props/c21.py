"""C21: the collision search."""
import laws
from island import *

EXPLANATION = laws.EXPLANATION + (
    " The verdict is decided by a path-sensitive dataflow over the search loop: which test answered what since the last point was added, "
    "and the value of the verdict where the search ends.")
ASSUMPTIONS = laws.ASSUMPTIONS + ["the search ends"]
UNKNOWN = ["simu::Gjk::furthestVertexInDirection"]
S = "simu::priv::Simplex::"


class Verdict(QFlow):
    both = ("three", "contains", "behind", "known", "pushed", "v", "done", "late")

    def __init__(self, verdict, done):
        self.verdict, self.done = verdict, done

    def loop_iter(self, L, st):
        return (frozenset(f for f in st if f[0] in ("v", "done")),)

    def fact(self, st, k, v):
        return None if (k, not v) in st else st | {(k, v)}

    def assume(self, term, truth, st, atom):
        t = deep_strip(term)
        while isinstance(t, tuple) and t[0] == "not":
            t, truth = deep_strip(t[1]), not truth
        neg, t = canon_cmp(t)
        if neg:
            truth = not truth
        if not isinstance(t, tuple):
            return st
        if t[0] == "fld" and t[2] == self.done:
            return self.fact(st, "done", truth)
        if t[0] == "fld" and t[2] == self.verdict:
            return self.fact(st, "v", truth)
        if t[0] == "call" and t[1] == S + "containsOrigin":
            return self.fact(st, "contains", truth)
        if t[0] == "call" and t[1] == S + "hasPoint":
            if any(f[0] == "known" for f in st):
                return self.fact(st, "known", truth)
            return st | {("known", truth)} | ({("late", True)} if ("pushed", True) in st else set())
        if t[0] == "op" and t[1] == "<":
            a, b = deep_strip(t[2]), deep_strip(t[3])
            if self.count(b) and a == ("lit", 2):
                return self.fact(st, "three", truth)
            if self.count(a) and b == ("lit", 3):
                return self.fact(st, "three", not truth)
            if isinstance(a, tuple) and a[0] == "call" and a[1].split("::")[-1] == "dot" and b in (("lit", 0), ("lit", 0.0)):
                xs = [deep_strip(x) for x in a[2:] if isinstance(x, tuple)]
                if support(xs) is not None:
                    return self.fact(st, "behind", truth)
        return st

    @staticmethod
    def count(t):
        return isinstance(t, tuple) and t[0] == "fld" and t[2].startswith(S)

    def event(self, ev, st):
        o = deep_strip(ev.obj)
        if ev.kind == "call" and ev.name == S + "pushPoint":
            st = frozenset(f for f in st if f[0] not in ("contains", "three"))
            return (st | {("pushed", True)},)
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] in (self.verdict, self.done) and ev.args:
            k = "v" if o[2] == self.verdict else "done"
            st = frozenset(f for f in st if f[0] != k)
            a = deep_strip(ev.args[-1])
            if isinstance(a, tuple) and a[0] == "lit":
                return (st | {(k, bool(a[1]))},)
            if is_zero(a):
                return (st | {(k, False)},)
            out = []
            for v in (True, False):
                s = self.assume(a, v, st, None)
                if s is not None:
                    out.append(s | {(k, v)})
            return out
        return (st,)


def is_zero(a):
    return a == ("zero",)


def support(xs):
    """dot(f(d), d): the direction d"""
    for v, d in ((x, y) for x in xs for y in xs if x is not y):
        if isinstance(v, tuple) and v[0] == "call" and v[1].split("::")[-1] == "furthestVertexInDirection" and deep_strip(v[-1]) == d:
            return d
    return None


def verdict(p, rep):
    done = 0
    for fn in p.functions.values():
        if fn.get("clsPlain") != "simu::Gjk" or not fn.get("ctor") or not fn.get("body") or len(fn["params"]) < 2:
            continue
        b = Builder(p, opaque=lambda q: any(x in q["name"] for x in ("Simplex::", "furthestVertexInDirection")) or q["name"].startswith(("simu::dot", "simu::Matrix", "simu::operator")))
        t, _ = b.root(fn)
        ver = getter(p, "simu::Gjk::areColliding")
        if ver is None:
            rep.notes.append("the verdict is not kept in a member; its derivation was not analysed")
            continue
        bools = {ev.obj[2] for ev, _ in events(t) if ev.kind == "write" and isinstance(ev.obj, tuple) and ev.obj[0] == "fld" and ev.obj[1] == ("this",)
                 and deep_strip(ev.args[-1]) in (("lit", True), ("lit", False)) and ev.obj[2] != ver}
        fl = Verdict(ver, next(iter(bools), None))
        r = fl.run(t, frozenset([frozenset()]))
        ends = frozenset().union(*[r.get(k, frozenset()) for k in ("n", "r", "rt", "rf")])
        w = "%s:%s" % (rel(fn["file"]), fn["line"])
        i = fn["id"][:60]
        if not any(f[0] == "contains" for s in ends for f in s):
            rep.notes.append("the search does not ask its simplex for the origin in a way the rule knows")
            continue
        hit = [s for s in ends if ("v", False) not in s]
        miss = [s for s in ends if ("v", True) not in s]
        rep.check(all(("contains", True) in s and ("three", True) in s for s in hit), "hit-only-with-origin", i, w,
                  "a collision may be reported although no triangle of the difference was found to hold the origin")
        rep.check(not any(("contains", True) in s and ("three", True) in s for s in miss), "hit-when-origin", i, w,
                  "a triangle holding the origin was found, and no collision is reported")
        rep.check(all(("behind", True) in s or ("known", True) in s and ("three", True) in s for s in miss), "miss-only-with-reason", i, w,
                  "the search may end without a collision although no furthest point lies behind the origin and a new point was found")
        rep.check(not any(("late", True) in s for s in ends), "novelty-before-push", i, w, "a point is compared with those of the simplex after it was added to it")
        done += 1
    for fn in p.functions.values():
        if fn.get("clsPlain") != "simu::Gjk" or not fn.get("body"):
            continue
        b = Builder(p, opaque=lambda q: any(x in q["name"] for x in ("Simplex::", "furthestVertexInDirection", "Barycentric", "Polytope")) or q["name"].startswith(("simu::dot", "simu::Matrix", "simu::operator")))
        t, _ = b.root(fn)
        for ev, _ in events(t):
            if ev.kind == "call" and ev.name == S + "pushPoint":
                a = deep_strip(ev.args[0])
                ok = isinstance(a, tuple) and a[0] == "call" and a[1].split("::")[-1] == "furthestVertexInDirection"
                d = deep_strip(a[-1]) if ok else None
                if not ok:
                    rep.notes.append("point of unknown origin at " + ev.where())
                    continue
                rep.check(isinstance(d, tuple) and d[0] == "call" and d[1] == S + "nextDirection", "search-point", fn["name"] + " " + ev.where(), ev.where(),
                          "the point added to the simplex is not the furthest one in the direction the simplex asks for")
    if not done:
        rep.notes.append("no analysable search")


def getter(p, name):
    """the member a getter returns"""
    for fn in p.fns(name):
        t, _ = Builder(p, opaque=lambda q: False).root(fn)
        for n, _ in walk(t):
            v = deep_strip(n.val) if isinstance(n, Ret) else None
            if isinstance(v, tuple) and v[0] == "fld" and v[1] == ("this",):
                return v[2]
    return None


RULES = [verdict,
         lambda prog, rep: laws.check(rep, "gjk", uninterpreted=UNKNOWN, floor=8),
         lambda prog, rep: laws.check(rep, "difference")]
