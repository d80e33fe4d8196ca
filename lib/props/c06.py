"""C06: order of the solver callbacks, integration and write back in a group."""
from island import *

EXPLANATION = (
    "Dataflow over the solving of one group of bodies inlined in World::step. Callbacks are matched to the list of constraints "
    "their object comes from; loops that visit a whole list without break turn a per-element fact into a fact about all "
    "elements; the iteration loops must be bounded by the settings. Rules: initialise all, warm-start all once when enabled, "
    "velocity iterations, one advance of every body, position iterations, write-back of every body, in that order.")
ASSUMPTIONS = ["solver callbacks do not change the lists of the group",
               "the index of a body maps bodies of the group one to one to poses and velocities (property C07)"]

SLOT = ("slot",)


class S(QFlow):
    preds = ("init", "warm", "vel", "adv", "pos", "wv", "wp", "ref", "ended")
    may = ("begun", "ran", "ranall", "posing", "nc", "written", "advanced", "velling")
    outer_facts = ()

    def __init__(self, p, g, dt, counted):
        self.p, self.g, self.dt, self.counted = p, g, dt, counted
        self.log = []
        self.iters = []
        self.calls = {}

    # elements of the bodies, poses and velocities are one index space
    def key(self, e):
        k = self.g.elem(e)
        if k in ("P", "V", "B"):
            return SLOT
        if k:
            return ("c", k)
        if isinstance(e, tuple) and e[0] == "var":
            for it in self.slotvars:
                if it == e:
                    return SLOT
        return e
    slotvars = ()

    def holds(self, pred, elem, st):
        k = self.key(elem)
        return (pred, k) in st or k[0] == "c" and ("empty", k) in st

    def has(self, pred, k, st):
        return ("all", pred, k) in st or k[0] == "c" and ("empty", k) in st

    def every(self, pred, st):
        return all(self.has(pred, ("c", l), st) for l in self.g.lists)

    def noconstraints(self, st):
        return all(("empty", ("c", l)) in st for l in self.g.lists)

    PER = ("init", "warm", "vel", "adv", "pos", "wv", "wp", "ref", "ended")

    def loop_iter(self, L, st):
        k = self.key(L.elem) if L.elem is not None else None
        if k == SLOT or k and k[0] == "c":
            return (frozenset(f for f in st if not (f[0] in self.PER and f[1] == k or f[0] == "ran" and f[2] == k or f[0] == "gone")),)
        if L is self.group:
            return (frozenset(f for f in st if f[0] in ("all",) and f[1] not in self.PER or f[0] in ("warmon", "warmoff")),)
        c = self.counted.get(id(L))
        if c:
            pred = {"vel": "vel", "pos": "pos"}[c]
            st = frozenset(f for f in st if not (f[0] in ("all", "miss") and f[1] == pred or f[0] in ("ran", "ranall") and f[1] == pred))
        return QFlow.loop_iter(self, L, st)

    def iter_end(self, L, st):
        c = self.counted.get(id(L))
        if c:
            self.iters.append((L, c, self.every(c, st)))
            return (st,)
        if L is self.group:
            self.log.append(("end", L, st))
        k = self.key(L.elem) if L.elem is not None else None
        if k == SLOT or k and k[0] == "c":
            return (st | frozenset(("miss", pr, k) for pr in self.preds if not self.holds(pr, L.elem, st)),)
        return QFlow.iter_end(self, L, st)

    def loop_break(self, L, st):
        if self.counted.get(id(L)):
            self.iters.append((L, "early", False))
            return (st,)
        return QFlow.loop_break(self, L, st)

    def loop_exit(self, L, st):
        c = self.counted.get(id(L))
        if c:
            return (frozenset(f for f in st if not (f[0] in ("all", "miss") and f[1] == c)) | {(c + "done",)},)
        k = self.key(L.elem) if L.elem is not None else None
        if k == SLOT or k and k[0] == "c":
            add = set()
            if L.cover == "full" and not L.kind.startswith("callback"):
                add = {("all", pr, k) for pr in self.preds if ("miss", pr, k) not in st}
            add |= {("ranall", f[1], f[2]) for f in st if f[0] == "ran" and f[2] == k}
            st = frozenset(f for f in st if not (f[0] == "miss" and f[2] == k) and not (f[0] in self.PER + ("ran",) and f[-1] == k))
            return (st | frozenset(add),)
        return QFlow.loop_exit(self, L, st)

    def assume(self, term, truth, st, atom):
        neg, t = canon_cmp(term)
        if neg:
            truth = not truth
        if t[0] == "call" and t[1].split("::")[-1] in ("empty", "isEmpty"):
            k = self.g.cont(t[2] if t[2] is not None else t[3])
            if k:
                if truth:
                    return None if ("nonempty", k) in st else st | {("empty", ("c", k))}
                return None if ("empty", ("c", k)) in st else st | {("nonempty", k)}
        if t[0] == "op" and t[1] in ("==", "<"):
            a, b = deep_strip(t[2]), deep_strip(t[3])
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] == "call" and x[1].split("::")[-1] == "size" and y in (("lit", 0), ("zero",)):
                    k = self.g.cont(x[2] if x[2] is not None else x[3])
                    if k:
                        isempty = truth if t[1] == "==" else (not truth if y == a else None)
                        if isempty is True:
                            return st | {("empty", ("c", k))}
        if setting(self.p, t, ("warm",)):
            return st | {("warmon",) if truth else ("warmoff",)} if (("warmoff",) if truth else ("warmon",)) not in st else None
        return st

    def event(self, ev, st):
        p, g = self.p, self.g
        sv = is_solver(p, ev)
        if sv and sv != "isActive":
            k = g.elem(ev.obj)
            self.log.append((sv, ev, st, k))
            tag = {"initSolve": "init", "warmstart": "warm", "solveVelocities": "vel", "solvePositions": "pos"}[sv]
            if k:
                key = ("c", k)
                st = st | {(tag, key), ("ran", tag, key), ("begun",)}
                if tag == "vel":
                    st = st | {("velling",)}
                if tag == "pos":
                    st = st | {("posing",)}
            return (st,)
        short = ev.name.split("::")[-1]
        o = deep_strip(ev.obj)
        if ev.kind == "call" and short == "advance" and g.elem(ev.obj) == "P":
            self.log.append(("advance", ev, st, None))
            return (st | {("adv", SLOT), ("ran", "adv", SLOT), ("advanced",)},)
        # containers
        k = g.cont(ev.obj) if ev.kind in ("call", "write") else None
        if k in ("P", "V") and (short in GROW or short in SHRINK or ev.kind == "write"):
            st = frozenset(f for f in st if not (f[0] == "all" and f[1] == "ref"))
        if k and ev.kind == "call" and short in SHRINK and short != "pop_back":
            st = frozenset(f for f in st if f != ("nonempty", k)) | {("cleared", k)}
        if k and ev.kind == "call" and short in GROW:
            st = frozenset(f for f in st if f != ("empty", ("c", k)) and f != ("cleared", k))
        # proxies of a constraint
        if isinstance(o, tuple) and o[0] == "fld" and o[2] == "simu::Bodies::proxies_" and (ev.kind == "write" or ev.kind == "call" and short == "operator="):
            c = o[1]
            c = c[1] if isinstance(c, tuple) and c[0] == "fld" else c
            kk = g.elem(c)
            if kk:
                src = self.proxy_source(ev)
                if src == "group":
                    st = st | {("ref", ("c", kk))}
                elif src == "none":
                    st = frozenset(f for f in st if f[:2] != ("all", "ref") or f[2] != ("c", kk)) | {("ended", ("c", kk))}
                self.log.append(("proxies", ev, st, (kk, src)))
        # write back
        if isinstance(o, tuple) and o[0] == "fld" and o[2] in ("simu::Body::velocity_", "simu::Body::position_") and \
                (ev.kind == "write" or ev.kind == "call" and short == "operator=") and g.elem(o[1]) == "B":
            want = "V" if o[2].endswith("velocity_") else "P"
            a = deep_strip(ev.args[-1]) if ev.args else None
            good = g.elem(a) == want and (a[0] == "elem" or g.index_of(a[2]) == o[1] or g.elem(g.index_of(a[2])) == "B") and ("gone",) not in st
            self.log.append(("writeback", ev, st, (want, good)))
            return (st | {("written",)} | ({("w" + want.lower(), SLOT)} if good else set()),)
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] == g.index_field(p) and g.elem(o[1]) == "B":
            return (st | {("gone",)},)
        return (st,)

    def proxy_source(self, ev):
        a = deep_strip(ev.args[-1]) if ev.args else None
        if a is None:
            return "other"
        c = self.proxycache.get(a)
        if c is None:
            ks = {self.g.cont(x) for x in provenance(self.tree, a)}
            c = "group" if {"P", "V"} <= ks else "none" if not ks & {"P", "V"} else "other"
            self.proxycache[a] = c
        return c


def iteration_loops(p, g, t):
    """loops that repeat a solver callback over the lists -> (loop, 'vel'|'pos')"""
    out = {}
    detail = []
    for ev, parents in events(t):
        sv = is_solver(p, ev)
        if sv not in ("solveVelocities", "solvePositions") or not g.elem(ev.obj):
            continue
        tag = "vel" if sv == "solveVelocities" else "pos"
        loops = [x for x in parents if isinstance(x, Loop)]
        outer = [x for x in loops if not (x.elem is not None and g.elem(x.elem) and g.elem(x.elem).startswith("L:"))]
        detail.append((ev, tag, outer))
    return detail


def counted_bound(L):
    r = L.rangeterm
    if isinstance(r, tuple) and r[0] == "index":
        return deep_strip(r[1])
    return None


def countdown_bound(L, t):
    """bound of loops such as  n = N; while (n-- > 0)  /  for (n = N; n > 0; --n)"""
    if L.cond is None:
        return None
    terms = [c.term for c in conds(L.cond)]
    if len(terms) != 1:
        return None
    neg, c = canon_cmp(terms[0])
    v = None
    for x in subterms(deep_strip(c)):
        if x[0] == "var":
            v = x
    if v is None:
        return None
    others = [x for x in subterms(deep_strip(c)) if x[0] == "lit" and x[1] not in (0, 1)]
    if others:
        return None
    inits, decs, bad = [], 0, 0
    for ev, ps in events(t):
        if ev.kind == "write" and ev.obj == v:
            if ev.name == "--":
                decs += 1
                if L not in ps:
                    bad += 1
            elif ev.name == "=" and L not in ps:
                inits.append(deep_strip(ev.args[-1]))
            else:
                bad += 1
    return inits[0] if len(inits) == 1 and decs == 1 and not bad else None


def conds(c):
    if isinstance(c, CAtom):
        return [c]
    out = []
    for a in ("a", "b", "c"):
        x = getattr(c, a, None)
        if x is not None and not isinstance(x, (tuple, str, int)):
            out += conds(x)
    return out


def rules(p, rep):
    g = Group(p)
    b, t, ctx = tree_of(p, rep, "simu::World::step", opaque=opaque_solver(p), key="c06")
    fn = p.fn("simu::World::step")
    dt = ("param", fn["params"][0]["name"])
    # the iteration loops
    counted, groups = {}, []
    detail = iteration_loops(p, g, t)
    if not detail:
        raise AnalysisBroken("no velocity or position solving of a group was found in the step")
    for ev, tag, outer in detail:
        words = ("velocity",) if tag == "vel" else ("position",)
        i = "%s at %s" % (ev.name, ev.where())
        cand = [(x, counted_bound(x) if counted_bound(x) is not None else countdown_bound(x, t)) for x in outer]
        its = [(x, bd) for x, bd in cand if bd is not None and any(setting(p, y, words) for y in [bd])]
        okk = len(its) == 1 and (its[0][0].cover == "full" or counted_bound(its[0][0]) is None) and not its[0][0].post
        rest = [x for x, _ in cand if not its or x is not its[0][0]]
        rep.check(okk, "iterations-match-settings", i, ev.where(), "%s is not repeated exactly the configured number of %s iterations" % (ev.name, words[0]))
        if its:
            counted[id(its[0][0])] = tag
        rep.check(len(rest) <= 1, "one-repetition", i, ev.where(), "%s is repeated by another loop besides the configured iterations" % ev.name)
        groups += [x for x in rest]
    if not groups:
        raise AnalysisBroken("no loop over the groups of the world")
    grp = groups[0]
    fl = S(p, g, dt, counted)
    fl.group, fl.tree, fl.proxycache = grp, t, {}
    # an index that walks over the poses names their slots
    fl.slotvars = [L.elem for L, _ in loops_of(t) if L.elem is not None and isinstance(L.rangeterm, tuple) and L.rangeterm[0] == "index" and
                   any(g.cont(x) in ("P", "V", "B") for x in subterms(deep_strip(L.rangeterm[1])))]
    fl.run(t, frozenset([frozenset()]))
    nm = {"init": "initialised", "warm": "warm-started", "vel": "velocity-solved", "pos": "position-solved", "adv": "advanced"}
    seen = set()
    for rec in fl.log:
        what = rec[0]
        if what == "end":
            st = rec[2]
            w = rec[1].where()
            if not any(f == ("all", "adv", SLOT) for f in st):
                rep.check(False, "every-body-advances", "group", w, "a group may be finished without advancing all of its bodies")
            rep.ok("every-body-advances", "group")
            for pr, n in (("wv", "velocity"), ("wp", "pose")):
                rep.check(("all", pr, SLOT) in st, "write-back-all", n, w, "the solved %s of some body of a group may not be written back to it" % n)
            for k in g.lists:
                rep.check(fl.has("ended", ("c", k), st), "proxies-released", k, w, "some constraints of %s stay attached to the solved state of a finished group" % k[2:])
            for k in sorted(set(g.kind.values())):
                local = False
                rep.check(("cleared", k) in st or ("empty", ("c", k)) in st or g_local(t, g, grp), "group-state-cleared", k, w, "the list %s of a finished group is carried over to the next group" % k)
            rep.check(("veldone",) in st or fl.noconstraints(st), "group-solved", "velocity", w, "a group with constraints may skip the velocity iterations")
            rep.check(("posdone",) in st or fl.noconstraints(st), "group-solved", "position", w, "a group with constraints may skip the position iterations")
            continue
        ev, st = rec[1], rec[2]
        i = "%s at %s" % (ev.name, ev.where())
        if what in ("initSolve", "warmstart", "solveVelocities", "solvePositions"):
            k = rec[3]
            if k is None:
                rep.check(False, "callback-on-listed-constraint", i, ev.where(), "%s is called on a constraint that is not in a list of the group" % what)
                continue
            rep.ok("callback-on-listed-constraint", i)
            key = ("c", k)
            tag = {"initSolve": "init", "warmstart": "warm", "solveVelocities": "vel", "solvePositions": "pos"}[what]
            again = ("ran", tag, key) in st or ("ranall", tag, key) in st
            rep.check(not again, "callback-once", i, ev.where(), "%s may run twice on the same constraint of %s in one pass" % (what, k[2:]))
            rep.check(("written",) not in st, "no-callback-after-write-back", i, ev.where(), "%s runs after solved state was written back" % what)
            # the constraint gets its own proxies
            a = deep_strip(ev.args[0]) if ev.args else None
            own = isinstance(a, tuple) and a[0] == "fld" and a[2] == "simu::Bodies::proxies_" and deep_strip(a[1])[1] == deep_strip(ev.obj)
            rep.check(own, "own-proxies", i, ev.where(), "%s is given the solved state of other bodies than its own" % what)
            if what == "initSolve":
                for l in g.lists:
                    rep.check(fl.has("ref", ("c", l), st), "proxies-follow-growth", "%s before %s" % (l, i), ev.where(),
                              "constraints of %s may still point to poses and velocities from before the group was complete" % l[2:])
                rep.check(not [f for f in st if f in (("velling",), ("posing",), ("advanced",))], "init-first", i, ev.where(), "initSolve runs after solving began")
            if what == "warmstart":
                rep.check(fl.every("init", st), "init-before-warmstart", i, ev.where(), "warmstart runs before every constraint of the group was initialised")
                rep.check(("warmon",) in st, "warmstart-only-when-enabled", i, ev.where(), "warmstart runs although warm starting may be disabled")
                rep.check(("velling",) not in st, "warmstart-before-velocity", i, ev.where(), "warmstart runs after velocities began to be solved")
            if what == "solveVelocities":
                rep.check(fl.every("init", st), "init-before-velocity", i, ev.where(), "velocities are solved before every constraint of the group was initialised")
                rep.check(fl.every("warm", st) or ("warmoff",) in st, "all-warmstarted-when-enabled", i, ev.where(),
                          "velocities are solved before every constraint of the group was warm-started although warm starting is enabled")
                rep.check(("advanced",) not in st and ("posing",) not in st, "velocity-before-advance", i, ev.where(), "velocities are solved after bodies advanced")
            if what == "solvePositions":
                rep.check(("all", "adv", SLOT) in st, "advance-before-position", i, ev.where(), "positions are corrected before every body of the group advanced")
        elif what == "advance":
            rep.check(("veldone",) in st or fl.noconstraints(st), "velocity-before-advance", i, ev.where(), "bodies advance before the velocity iterations of their group")
            rep.check(not (("ran", "adv", SLOT) in st or ("ranall", "adv", SLOT) in st), "advance-once", i, ev.where(), "a body may advance twice in one step")
            rep.check(("written",) not in st, "advance-before-write-back", i, ev.where(), "a body advances after its pose was written back")
            rep.check(advance_args(g, ev, dt, t), "advance-by-velocity-times-dt", i, ev.where(), "a body does not advance by its own solved velocity times the time step")
        elif what == "writeback":
            want, good = rec[3]
            rep.check(good, "write-back-own-state", i, ev.where(), "a body does not get its own solved %s back" % ("velocity" if want == "V" else "pose"))
            rep.check(("all", "adv", SLOT) in st, "advance-before-write-back", i, ev.where(), "state is written back before every body advanced")
            rep.check(("posdone",) in st or fl.noconstraints(st), "position-before-write-back", i, ev.where(), "state is written back before the position iterations")
        elif what == "proxies":
            kk, src = rec[3]
            if src == "other":
                rep.check(False, "proxies-follow-growth", i, ev.where(), "a constraint is attached to only part of the solved state of the group")
    for L, tag, okk in fl.iters:
        n = {"vel": "velocity", "pos": "position", "early": "solver"}[tag]
        if tag == "early":
            rep.check(False, "iterations-match-settings", L.where(), L.where(), "the solver iterations of a group may stop before the configured number")
        else:
            rep.check(okk, "iteration-covers-all", "%s %s" % (n, L.where()), L.where(), "a %s iteration may leave out some constraint of the group" % n)
    proxies_pair(p, rep, g, t)
    for r, n in (("iterations-match-settings", 4), ("callback-on-listed-constraint", 8), ("advance-once", 1), ("write-back-all", 2),
                 ("own-proxies", 8), ("iteration-covers-all", 2), ("proxies-follow-growth", 4), ("write-back-own-state", 2), ("proxy-pairs", 4)):
        rep.floor(r, n)


def g_local(t, g, grp):
    """the lists of the group are created anew for every group"""
    for ev, ps in events(t):
        if ev.kind == "write" and ev.name == "init" and g.cont(ev.obj) and grp in ps:
            return True
    return False


def loops_of(t):
    out = []
    for n, ps in walk(t):
        if isinstance(n, Loop):
            out.append((n, ps))
    return out


def factors(t):
    t = deep_strip(t)
    if isinstance(t, tuple) and t[0] == "op" and t[1] == "*":
        return factors(t[2]) + factors(t[3])
    if isinstance(t, tuple) and t[0] == "call" and t[1].split("::")[-1] == "operator*":
        out = []
        for x in t[2:]:
            if x is not None:
                out += factors(x)
        return out
    return [t]


def advance_args(g, ev, dt, tree):
    """(linear of own velocity * dt, angular of own velocity * dt)"""
    if len(ev.args or []) != 2:
        return False
    idx = deep_strip(ev.obj)
    idx = idx[2] if idx[0] == "idx" else None
    res = []
    for a, part in zip(ev.args, ("linear", "angular")):
        fs = factors(a)
        ok = len(fs) == 2
        got = set()
        for f in fs:
            if f == dt:
                got.add("dt")
                continue
            x = f
            name = None
            if isinstance(x, tuple) and x[0] == "call":
                name, x = x[1].split("::")[-1], x[2]
            elif isinstance(x, tuple) and x[0] == "fld":
                name, x = x[2].split("::")[-1].strip("_"), x[1]
            x = deep_strip(x) if x is not None else None
            if name == part and isinstance(x, tuple):
                if g.elem(x) == "V" or x[0] == "idx" and g.cont(x[1]) == "V":
                    j = x[2] if x[0] == "idx" else None
                    if j == idx or j is None or idx is None:
                        got.add("v")
        res.append(ok and got == {"dt", "v"})
    return all(res)


def proxies_pair(p, rep, g, t):
    """every proxy pairs the pose and the velocity of one body, and the two
    proxies of a constraint follow the order of its bodies"""
    def which(term):
        """(container kind, body term) of P.data() + index-of-body"""
        k, body = None, None
        for x in subterms(deep_strip(term)):
            if g.cont(x) in ("P", "V"):
                k = g.cont(x)
            if x[0] == "fld" and x[2] == g.index_field(p):
                body = x[1]
        return k, body
    order = {}
    parts = {}
    for ev, ps in events(t):
        o = deep_strip(ev.obj)
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] in ("simu::SolverProxy::position_", "simu::SolverProxy::velocity_"):
            k, body = which(ev.args[-1])
            if k:
                parts.setdefault(o[1], []).append((o[2].split("::")[-1], k, body, ev))
    for obj, ws in parts.items():
        i = "%s" % ws[0][3].where()
        bodies = {w[2] for w in ws}
        kinds = {(w[0], w[1]) for w in ws}
        rep.check(len(bodies) == 1 and None not in bodies, "proxy-pairs", i + " " + show(list(bodies)[0])[-40:], ws[0][3].where(), "the pose and the velocity given to a constraint belong to different bodies")
        rep.check(kinds == {("position_", "P"), ("velocity_", "V")}, "proxy-pairs", "kinds " + i, ws[0][3].where(), "a constraint is given a pose or velocity of the wrong list")
        order[obj] = list(bodies)[0] if len(bodies) == 1 else None
    for ev, ps in events(t):
        if ev.kind == "call" and ev.name == "simu::Proxies::Proxies" and len(ev.args or []) >= 2:
            bs = [order.get(deep_strip(a)) for a in ev.args[:2]]
            if any(x is None for x in bs):
                continue
            ks = [x[2] if isinstance(x, tuple) and x[0] == "idx" else x for x in bs]
            rep.check(ks == [("lit", 0), ("lit", 1)] and bs[0][1] == bs[1][1], "proxy-order", ev.where(), ev.where(), "the proxies of a constraint are not in the order of its bodies")


RULES = [rules]
