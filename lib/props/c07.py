"""C07: which bodies and constraints are solved together."""
from island import *
from tree import Thr

EXPLANATION = (
    "Dataflow over the forming of groups inlined in World::step: per-path counts of what joining one constraint adds to and "
    "removes from the lists of the group, correlated with the answers of isActive, of the membership tests and of the "
    "index tests; quantified facts for the search over the bodies of a group and for the worklist of the world's bodies.")
ASSUMPTIONS = ["isActive does not change the lists of the group",
               "a body is listed in the constraint and contact lists of its body (property C02)"]


class S(QFlow):
    preds = ("explored", "considered", "queued", "dequeued")
    both = ("net", "push", "new", "active", "hasp", "assigned", "prox", "is", "wrong", "structural", "listed", "joined")
    may = ("restored",)

    def __init__(self, p, g):
        self.p, self.g = p, g
        self.log = []
        self.work = None
        self.bodylists = set()

    def key(self, e):
        k = self.g.elem(e)
        if k == "B":
            return ("B",)
        return e

    def node(self, n, S):
        # assertions state what holds; they do not add knowledge here (an index
        # tested before it was assigned may be tested again afterwards)
        if isinstance(n, If) and not n.els and n.then and all(isinstance(x, Thr) or isinstance(x, Ev) for x in n.then) and any(isinstance(x, Thr) for x in n.then):
            return {"n": S}
        return QFlow.node(self, n, S)

    # value of a local variable
    def val(self, t, st):
        for f in st:
            if f[0] == "is" and f[1] == t:
                return f[2]
        return t

    def holds(self, pred, elem, st):
        if pred == "explored":
            return ("explored",) in st
        if pred == "considered":
            return ("considered", elem) in st
        if pred == "queued":
            return ("queued", elem) in st
        if pred == "dequeued":
            return ("dequeued", self.key(elem)) in st
        return False

    CON = ("net", "push", "new", "active", "hasp", "assigned", "prox", "wrong", "restored", "joined")

    def is_growth(self, L):
        r = L.rangeterm
        if r is not None and self.g.cont(r) == "B":
            return self.grows.setdefault(id(L), any(isinstance(x, Loop) and self.lists_of(x) for x, _ in walk(L.body)))
        if isinstance(r, tuple) and r[0] == "index":
            return any(self.g.cont(x) == "B" for x in subterms(deep_strip(r[1])))
        return False

    def lists_of(self, L):
        """(body term, 'constraints_'...) when L walks a list of constraints of a body"""
        r = deep_strip(L.rangeterm) if L.rangeterm is not None else None
        if self.within is not None and id(L) not in self.within:
            return None
        if isinstance(r, tuple) and r[0] == "fld" and r[2].startswith("simu::Body::") and r[2].split("::")[-1] in self.bodyfields:
            return r[1], r[2].split("::")[-1]
        return None

    def loop_enter(self, L, st):
        if self.is_growth(L):
            return (frozenset(f for f in st if f[0] not in ("is",)),)
        return QFlow.loop_enter(self, L, st)

    def loop_iter(self, L, st):
        if self.is_growth(L):
            return (frozenset(f for f in st if f[0] not in ("is", "explored", "structural", "listed") and not (f[0] == "all" and f[1] == "considered")),)
        if self.lists_of(L):
            return (frozenset(f for f in st if f[0] not in self.CON and not (f[0] == "considered" and f[1] == L.elem)),)
        return QFlow.loop_iter(self, L, st)

    def iter_end(self, L, st):
        if self.is_growth(L):
            ok = ("structural",) in st or all(("listed", n) in st for n in self.bodyfields)
            self.log.append(("explored", L, ok))
            return (st,)
        if self.lists_of(L):
            self.join_end(L, st)
            st = frozenset(f for f in st if f[0] not in self.CON)
            return (st | {("considered", L.elem)},)
        return QFlow.iter_end(self, L, st)

    def loop_break(self, L, st):
        if self.is_growth(L):
            self.log.append(("explored", L, False))
        if self.lists_of(L):
            self.join_end(L, st)
            return (st | {("cut",)},)
        return QFlow.loop_break(self, L, st)

    def loop_exit(self, L, st):
        if self.is_growth(L):
            if L.cover != "full":
                self.log.append(("explored", L, False))
            return (frozenset(f for f in st if f[0] not in ("is", "structural", "listed")) | {("grown",)},)
        w = self.lists_of(L)
        if w:
            st2 = frozenset(f for f in st if f[0] not in self.CON + ("considered", "cut"))
            if L.cover == "full" and ("cut",) not in st:
                body = self.val(w[0], st)
                st2 |= {("listed", w[1])} if self.current(body, st) else set()
            return (st2,)
        return QFlow.loop_exit(self, L, st)

    def current(self, body, st):
        b = self.val(deep_strip(body), st)
        return self.g.elem(b) == "B"

    def net(self, st, k):
        for f in st:
            if f[0] == "net" and f[1] == k:
                return f[2]
        return 0

    def add(self, st, k, d):
        n = self.net(st, k) + d
        st = frozenset(f for f in st if not (f[0] == "net" and f[1] == k))
        return st if n == 0 else st | {("net", k, max(-3, min(3, n)))}

    def join_end(self, L, st):
        g = self.g
        nets = {k: self.net(st, k) for k in ["P", "V", "B"] + g.lists}
        c = L.elem
        joined = [k for k in g.lists if nets[k]]
        facts = {f for f in st if f[0] in self.CON}
        self.log.append(("join", L, nets, facts, c))

    def assume(self, term, truth, st, atom):
        g = self.g
        neg, t = canon_cmp(term)
        if neg:
            truth = not truth
        if t[0] == "op" and t[1] == "==":
            a, b = deep_strip(t[2]), deep_strip(t[3])
            for x, y in ((a, b), (b, a)):
                if g.index_of(x) is not None and self.noindex(y):
                    who = g.index_of(x)
                    old = [f for f in st if f[0] == "new" and f[1] == who]
                    if old:
                        return st if old[0][2] == truth else None
                    return st | {("new", who, truth)}
                if isinstance(x, tuple) and x[0] == "fld" and x[2] == "simu::SolverProxy::position_" and y == ("null",):
                    c = self.con_of(x)
                    if c is not None:
                        return self.decide(st, ("hasp", c), not truth)
        if t[0] == "op" and t[1] in ("<", "<="):
            # index >= 0 and the like
            a, b = deep_strip(t[2]), deep_strip(t[3])
            if g.index_of(a) is not None and b in (("lit", 0), ("zero",)) and t[1] == "<":
                return self.decide(st, ("new", g.index_of(a)), truth)
        if t[0] == "call" and t[1].split("::")[-1] == "isActive":
            return self.decide(st, ("active", deep_strip(t[2])), truth)
        if t[0] == "call" and t[1].split("::")[-1] == "hasProxies" or t[0] == "ret" and t[1].split("::")[-1] == "hasProxies":
            c = self.con_of(t[2])
            if c is not None:
                return self.decide(st, ("hasp", c), truth)
        if t[0] in ("call", "ret") and t[1].split("::")[-1] == "interactsAsStructural":
            if truth and self.current(t[2], st):
                return st | {("structural",)}
        return st

    def decide(self, st, k, v):
        for f in st:
            if f[:-1] == k:
                return st if f[-1] == v else None
        return st | {k + (v,)}

    def con_of(self, t):
        """the constraint whose bodies or proxies t belongs to"""
        t = deep_strip(t)
        for x in subterms(t):
            if x[0] == "fld" and x[2] == "simu::Constraint::bodies_":
                return x[1]
        return None

    def noindex(self, t):
        return isinstance(t, tuple) and (t[0] == "global" and "Body" in t[1] or t == ("lit", -1))

    @staticmethod
    def reads_now(ev, field):
        def go(e):
            if not isinstance(e, dict):
                return False
            if e.get("k") == "cond":
                return go(e["a"]) or go(e["b"])
            if e.get("k") == "cast":
                return go(e["e"])
            return e.get("k") == "mem" and e.get("field") == field
        return isinstance(ev.node, dict) and ev.node.get("k") == "asg" and go(ev.node.get("b"))

    def event(self, ev, st):
        g = self.g
        short = ev.name.split("::")[-1]
        o = deep_strip(ev.obj)
        # locals
        if ev.kind == "write" and ev.name == "=" and isinstance(o, tuple) and o[0] == "var":
            v = self.val(deep_strip(ev.args[-1]), st)
            st = frozenset(f for f in st if not (f[0] == "is" and f[1] == o))
            return (st | {("is", o, v)},)
        if ev.kind == "write" and isinstance(o, tuple) and o[0] == "fld" and o[2] == g.index_field(self.p):
            a = deep_strip(ev.args[-1]) if ev.args else None
            who = o[1]
            if g.index_of(a) == who and self.reads_now(ev, g.index_field(self.p)):
                return (st,)        # the value it has now, not the one it had
            if self.noindex(a) or g.index_of(a) == who:
                st = frozenset(f for f in st if not (f[0] == "assigned" and f[1] == who))
                return (st | {("restored", who)},)
            n = None
            if a is not None and g.elem(who) != "B":
                n = self.sizeof(a)
            self.log.append(("index", ev, n is not None))
            if n is None:
                return (st | {("wrong", "index")},)
            return (st | {("assigned", who, self.net(st, n[0]) + n[1], n[0])},)
        k = g.cont(ev.obj) if ev.kind == "call" else None
        if k and short in ("emplace_back", "push_back"):
            a = deep_strip(ev.args[0]) if ev.args else None
            n = self.net(st, k)
            if k in ("P", "V"):
                want = "simu::Body::position_" if k == "P" else "simu::Body::velocity_"
                ok = isinstance(a, tuple) and a[0] == "fld" and a[2] == want
                self.log.append(("value", ev, ok, k))
                who = a[1] if ok else None
                st = st | {("push", k, who, n)}
            elif k == "B":
                st = st | {("push", "B", a, n)}
                self.log.append(("fresh", ev, ("new", a, True) in st or ("new", self.val(a, st), True) in st))
            else:
                st = st | {("push", k, a, n)}
                self.log.append(("once", ev, ("hasp", a, False) in st, k))
            return (self.add(st, k, 1),)
        if k and short == "pop_back":
            n = self.net(st, k) - 1
            st = frozenset(f for f in st if not (f[0] == "push" and f[1] == k and f[3] == n))
            return (self.add(st, k, -1),)
        # proxies of the constraint being joined
        if isinstance(o, tuple) and o[0] == "fld" and o[2] == "simu::Bodies::proxies_" and (ev.kind == "write" or ev.kind == "call" and short == "operator="):
            c = self.con_of(o)
            src = self.proxy_source(ev)
            st = frozenset(f for f in st if not (f[0] == "prox" and f[1] == c))
            return (st | {("prox", c, src)},)
        # the worklist
        if self.work is not None:
            ce = container_event(ev, self.work)
            if ce in ("emplace_back", "push_back", "insert", "emplace", "emplace_front", "push_front"):
                a = deep_strip(ev.args[-1]) if ev.args else None
                return (st | {("queued", a)},)
            if ev.kind == "call" and short in ("erase", "remove") and ev.args and \
                    (deep_strip(ev.obj) == self.work if ev.obj is not None else deep_strip(ev.args[0]) == self.work):
                a = deep_strip(ev.args[-1])
                if g.elem(a) == "B":
                    return (st | {("dequeued", ("B",))},)
        return (st,)

    def sizeof(self, a):
        """(list kind, offset) when a is the size of a list of the group plus a constant"""
        a = deep_strip(a)
        if isinstance(a, tuple) and a[0] == "op" and a[1] in ("+", "-") and a[3][0] == "lit":
            s = self.sizeof(a[2])
            return (s[0], s[1] + (a[3][1] if a[1] == "+" else -a[3][1])) if s else None
        if isinstance(a, tuple) and a[0] == "call" and a[1].split("::")[-1] in ("size", "ssize"):
            x = a[2] if a[2] is not None else a[3]
            k = self.g.cont(x)
            if k in ("P", "V", "B"):
                return (k, 0)
        return None

    def proxy_source(self, ev):
        a = deep_strip(ev.args[-1]) if ev.args else None
        c = self.proxycache.get(a)
        if c is None:
            ks = {self.g.cont(x) for x in provenance(self.tree, a)}
            c = "group" if {"P", "V"} <= ks else "none" if not ks & {"P", "V"} else "other"
            self.proxycache[a] = c
        return c


def rules(p, rep):
    g = Group(p)
    b, t, ctx = tree_of(p, rep, "simu::World::step", opaque=opaque_solver(p), key="c06")
    ow = owners(p)
    bodies = [o for o in ow if derives(p, o.cls, "simu::Body") or o.cls == "simu::Body"]
    if len(bodies) != 1:
        raise AnalysisBroken("the list of bodies of the world was not found")
    bodies = bodies[0]
    bf = []
    for f in p.rec("simu::Body")["fields"]:
        e = Group.elem_type(f["type"])
        if e and e.endswith("*") and derives(p, e[:-1], "simu::Constraint"):
            bf.append(f["name"])
    if len(bf) < 2:
        raise AnalysisBroken("the constraint lists of a body were not found")
    fl = S(p, g)
    fl.bodyfields = bf
    fl.within = None
    fl.grows = {}
    fl.tree, fl.proxycache = t, {}
    # the worklist: the local list of bodies filled from the world's bodies
    cands = set()
    for ev, ps in events(t):
        if ev.kind == "call" and ev.name.split("::")[-1] in ("emplace_back", "push_back", "insert", "emplace") and ev.obj is not None and g.cont(ev.obj) is None:
            o = deep_strip(ev.obj)
            if o[0] in ("var", "obj") and ev.args and owner_key(ow, deep_strip(ev.args[-1])) and owner_key(ow, deep_strip(ev.args[-1]))[0] == bodies.field:
                cands.add(o)
    drain = None
    grow = None
    for L, ps in [(n, ps) for n, ps in walk(t) if isinstance(n, Loop)]:
        if fl.is_growth(L) and any(isinstance(x, Loop) and fl.lists_of(x) for x, _ in walk(L.body)):
            grow = L
            outer = [x for x in ps if isinstance(x, Loop)]
            drain = outer[-1] if outer else None
    if grow is None:
        for L, ps in [(n, ps) for n, ps in walk(t) if isinstance(n, Loop)]:
            if fl.lists_of(L) and any(isinstance(x, Loop) for x in ps) and any(e.kind == "call" and g.cont(e.obj) for e, _ in events(L.body)):
                rep.check(False, "every-constraint-of-a-member-considered", L.where(), L.where(),
                          "the constraints of only one body of a group are considered, not those of every body that joins")
    if grow is None or drain is None:
        raise AnalysisBroken("the search for the bodies of a group, or the loop over groups, was not found")
    from props.c06 import conds
    used = {x for c in (conds(drain.cond) if drain.cond is not None else []) for x in subterms(deep_strip(c.term))}
    if isinstance(drain.elem, tuple):
        used |= set(subterms(drain.elem))
    cands &= used
    if len(cands) == 1:
        fl.work = cands.pop()
    fl.within = {id(x) for x, _ in walk(grow.body)}
    starts = {}
    final = {}

    class W(S):
        pass
    orig_end, orig_exit = S.iter_end, S.loop_exit

    def iter_end(self, L, st):
        if L is drain:
            final.setdefault("iter", []).append(st)
        return orig_end(self, L, st)

    def loop_exit(self, L, st):
        out = orig_exit(self, L, st)
        if L is drain:
            final.setdefault("exit", []).extend(out)
        return out

    def loop_iter(self, L, st):
        if L is drain:
            starts.setdefault("st", []).append(st)
            st = frozenset(f for f in st if f[0] == "all" and f[1] == "queued")
        return S.loop_iter(self, L, st)

    def loop_break(self, L, st):
        if L is drain:
            final.setdefault("break", []).append(st)
        return S.loop_break(self, L, st)
    W.iter_end, W.loop_exit, W.loop_iter, W.loop_break = iter_end, loop_exit, loop_iter, loop_break
    fl.__class__ = W
    fl.run(t, frozenset([frozenset()]))
    for rec in fl.log:
        if rec[0] == "explored":
            rep.check(rec[2], "every-constraint-of-a-member-considered", rec[1].where(), rec[1].where(),
                      "some constraint or contact of a moving body of a group is not considered for the group")
        elif rec[0] == "index":
            rep.check(rec[2], "index-names-the-slot", rec[1].where(), rec[1].where(), "a body joins a group with an index that is not its place in the lists of the group")
        elif rec[0] == "value":
            rep.check(rec[2], "slot-starts-from-body", rec[1].where(), rec[1].where(), "a body joins a group with a pose or velocity that is not its own")
        elif rec[0] == "fresh":
            rep.check(rec[2], "body-joins-once", rec[1].where(), rec[1].where(), "a body may be added to a group it already belongs to")
        elif rec[0] == "once":
            rep.check(rec[2], "constraint-joins-once", rec[1].where(), rec[1].where(), "a constraint may be added to a group it already belongs to")
        elif rec[0] == "join":
            L, nets, facts, c = rec[1:]
            join(g, rep, L, nets, facts, c)
    rep.check(fl.work is not None, "every-body-solved", "worklist", drain.where(), "the bodies of the world are not all queued for solving")
    for st in starts.get("st", []):
        rep.check(("all", "queued", ("elem", bodies.term)) in st, "every-body-solved", "queued before groups form", drain.where(),
                  "a body of the world may be missing from the bodies to solve")
    for st in final.get("iter", []):
        rep.check(("all", "dequeued", ("B",)) in st, "group-leaves-worklist", drain.where(), drain.where(), "a body of a finished group may be solved again")
    c = drain.cond
    drained = drain.cover == "full" and isinstance(drain.elem, tuple) and drain.elem == ("elem", fl.work) or drained_cond(drain, fl.work)
    rep.check(drained and not final.get("break"), "every-body-solved", "until the worklist is empty", drain.where(), "groups may stop being formed while bodies remain to be solved")
    # the root is taken from the worklist and joins the group
    roots = [ev for ev, ps in events(t) if drain in ps and grow not in ps and ev.kind == "call" and g.cont(ev.obj) == "B" and
             ev.name.split("::")[-1] in ("emplace_back", "push_back")]
    rep.check(bool(roots), "every-body-solved", "a queued body starts each group", drain.where(), "a group does not start from a queued body")
    for ev in roots:
        src = provenance(t, ev.args[0]) | {deep_strip(ev.args[0])}
        rep.check(("elem", fl.work) in src or any(x[0] in ("elem", "idx") and x[1] == fl.work for x in src), "every-body-solved", "root " + ev.where(), ev.where(),
                  "a group does not start from a queued body")
    for r, n in (("every-constraint-of-a-member-considered", 1), ("join-balanced", 2), ("join-iff-active", 4), ("every-body-solved", 4),
                 ("slot-starts-from-body", 2), ("body-joins-once", 1), ("constraint-joins-once", 1), ("group-leaves-worklist", 1), ("index-names-the-slot", 1)):
        rep.floor(r, n)


def drained_cond(L, work):
    from props.c06 import conds
    if L.cond is None or work is None:
        return False
    ts = [canon_cmp(c.term) for c in conds(L.cond)]
    if len(ts) != 1:
        return False
    neg, t = ts[0]
    if t[0] == "call" and t[1].split("::")[-1] == "empty":
        return deep_strip(t[2] if t[2] is not None else t[3]) == work
    if t[0] == "op":
        has = [x for x in subterms(deep_strip(t)) if x[0] == "call" and x[1].split("::")[-1] == "size" and deep_strip(x[2] if x[2] is not None else x[3]) == work]
        zero = [x for x in subterms(deep_strip(t)) if x in (("lit", 0), ("zero",))]
        return bool(has and zero)
    return False


def join(g, rep, L, nets, facts, c):
    w = L.where()
    i = "%s" % show(c)[-40:]
    joined = {k: nets[k] for k in g.lists if nets[k]}
    act = [f[2] for f in facts if f[0] == "active" and f[1] == c]
    hasp = [f[2] for f in facts if f[0] == "hasp" and f[1] == c]
    prox = [f[2] for f in facts if f[0] == "prox" and f[1] == c]
    rep.check(nets["B"] == nets["P"] == nets["V"] and nets["B"] >= 0, "join-balanced", i, w,
              "after considering a constraint the group has different numbers of bodies, poses and velocities")
    # places agree with the lists
    pushes = {k: {f[3]: f[2] for f in facts if f[0] == "push" and f[1] == k} for k in ("P", "V", "B")}
    rep.check(pushes["P"] == pushes["V"] == pushes["B"], "places-agree", i, w, "the body, pose and velocity at one place of the lists may belong to different bodies")
    assigned = {f[1]: f[2] for f in facts if f[0] == "assigned"}
    rep.check(assigned == {v: k for k, v in pushes["P"].items()}, "index-names-the-slot", "after " + i, w,
              "the index of a body does not name its place in the lists of the group")
    rep.check(not any(f[0] == "wrong" for f in facts), "index-names-the-slot", "value " + i, w, "a body joins a group with an index that is not its place in the lists of the group")
    if joined:
        rep.check(act == [True] and set(joined.values()) == {1} and len(joined) == 1, "join-iff-active", "joined " + i, w,
                  "a constraint joins a group without being active, or more than once")
        rep.check(prox == ["group"], "joined-has-proxies", i, w, "a constraint that joined a group is not attached to its solved state")
        who = {f[1] for f in facts if f[0] == "new"}
        sides = {x[2] for x in who if isinstance(x, tuple) and x[0] == "idx" and c_of(x) == c}
        al = any(isinstance(x, tuple) and x[0] == "elem" and c_of(x) == c for x in who)
        rep.check({("lit", 0), ("lit", 1)} <= sides or al, "both-bodies-join", i, w, "a constraint joins a group without both of its bodies")
        for f in facts:
            if f[0] == "new" and f[2] is True:
                rep.check(f[1] in pushes["B"].values(), "both-bodies-join", "%s joins" % show(f[1])[-40:], w, "a body outside the group is not added with its constraint")
    else:
        rep.check(act == [False] or hasp == [True], "join-iff-active", "left out " + i, w, "an active constraint may be left out of the group of its body")
        rep.check(nets["B"] == 0, "inactive-leaves-no-trace", i, w, "considering a constraint that does not join leaves a body in the group")
        rep.check(hasp == [True] or prox in ([], ["none"]), "inactive-leaves-no-trace", "proxies " + i, w, "a constraint that does not join stays attached to the group")


def c_of(x):
    x = deep_strip(x)
    for y in subterms(x):
        if y[0] == "fld" and y[2] == "simu::Constraint::bodies_":
            return y[1]
    return None


RULES = [rules]
