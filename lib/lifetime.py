"""Validity of iterators, references and pointers into containers.

For every container (a field, by class and name, or a local) the analysis
follows what iterates over it or points into it, and what changes it, calls and
callbacks included; it reports a use of something the change made invalid."""
import re

KINDS = [("vec", re.compile(r"^(const )?(std::(vector|deque|basic_string)|simu::\w*Vector(Set)?)<")), ("list", re.compile(r"^(const )?std::(__cxx11::)?(list|forward_list)<")),
         ("hash", re.compile(r"^(const )?std::unordered_")), ("map", re.compile(r"^(const )?std::(map|set|multimap|multiset)<")),
         ("tree", re.compile(r"^(const )?simu::(RTree<|(\w+::)*\w*Tree$)"))]
ERASE = {"erase", "extract", "pop_back", "pop_front", "remove", "remove_if", "erase_after"}
GROW = {"push_back", "emplace_back", "push_front", "emplace_front", "emplace", "insert", "resize", "reserve", "try_emplace", "insert_or_assign", "shrink_to_fit", "push", "emplace_hint"}
CLEAR = {"clear", "assign", "operator=", "swap"}
LEADS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "front", "back", "at", "operator[]", "data", "insert", "emplace", "emplace_back", "push_back", "lower_bound", "upper_bound", "erase", "forEachIn"}
THROUGH = {"std::next", "std::prev", "std::find", "std::find_if", "std::begin", "std::end", "std::addressof", "std::forward", "std::move", "std::as_const", "std::get", "std::min_element", "std::max_element",
           "std::ranges::find", "std::ranges::find_if", "std::lower_bound", "std::upper_bound", "std::remove", "std::remove_if", "std::ranges::max_element", "std::ranges::min_element"}


def kind(t):
    t = (t or "").strip()
    for k, r in KINDS:
        if r.match(t):
            return k
    return None


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "cleanup"):
        e = e.get("e")
    return e


def root(e, env):
    """the object a field belongs to: this object, a parameter, or unknown"""
    e = strip(e)
    while isinstance(e, dict) and e.get("k") == "un" and e.get("op") == "*":
        e = strip(e.get("e"))
    if e is None:
        return "this"
    if isinstance(e, dict):
        if e.get("k") == "this":
            return "this"
        if e.get("k") == "var" and e.get("id") in env.get("params", ()):
            return e["id"]
    return None


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "f":
        return a[1] == b[1] and (a[2] == b[2] or a[2] is None or b[2] is None)
    return a == b


class Lifetimes:
    def __init__(self, prog):
        self.p = prog
        self.sums = {}
        self.leads = {}
        self.types = {}

    # ---- which container an expression is, or leads into
    def container(self, e, env, d=0):
        """{(key, kind)} when the expression names a container"""
        e = strip(e)
        if not isinstance(e, dict) or d > 8:
            return frozenset()
        k = e.get("k")
        t = e.get("dt") or e.get("t") or ""
        if k == "un" and e.get("op") == "*":
            return self.container(e.get("e"), env, d + 1)
        if k == "mem":
            kd = kind(t.rstrip("& "))
            if kd:
                self.types[e.get("field")] = t
                return frozenset({(("f", e.get("field"), root(e.get("base"), env)), kd)})
            return frozenset()
        if k == "var":
            a = env.get(("alias", e.get("id")))
            if a is not None:
                return a
            kd = kind(t.rstrip("& "))
            return frozenset({(("v", e.get("id")), kd)}) if kd else frozenset()
        if k == "call":
            obj = e.get("obj")
            name = (e.get("callee") or {}).get("name") or ""
            if name.rsplit("::", 1)[-1] in ("operator*", "operator->", "get") and obj is not None:
                return self.container(obj, env, d + 1)
            r = set()
            for key, kd in self.returned((e.get("callee") or {}).get("fn")):
                if key[0] == "f":
                    key = ("f", key[1], root(obj, env) if key[2] == "this" else None)
                r.add((key, kd))
            if name in ("std::forward", "std::move", "std::as_const") and e.get("args"):
                r |= self.container(e["args"][0], env, d + 1)
            return frozenset(r)
        if k == "mem_shared":
            return frozenset()
        return frozenset()

    def returned(self, fid, d=0):
        """containers (or views of them) a function of the library returns"""
        if fid in self.leads:
            return self.leads[fid]
        self.leads[fid] = frozenset()
        f = self.p.functions.get(fid)
        r = set()
        if f and f.get("body") and not f["name"].startswith("std::") and d < 4:
            rets = []
            collect(f["body"], "return", rets)
            t = f.get("ret") or ""
            if t.rstrip().endswith("&") or "iew" in t or "subrange" in t or "terator" in t or "Range" in t:
                for x in rets:
                    stack = [x.get("e")]
                    while stack:
                        y = stack.pop()
                        if isinstance(y, list):
                            stack.extend(y)
                        elif isinstance(y, dict):
                            if y.get("k") == "mem":
                                kd = kind((y.get("dt") or y.get("t") or "").rstrip("& "))
                                if kd and (t.rstrip().endswith("&") and kind(t.rstrip("& ").replace("const ", "")) or not t.rstrip().endswith("&")):
                                    r.add((("f", y.get("field"), root(y.get("base"), {})), kd))
                            if y.get("k") == "call":
                                r |= {(("f", q[1], q[2] if root(y.get("obj"), {}) == "this" else None) if q[0] == "f" else q, w) for q, w in self.returned((y.get("callee") or {}).get("fn"), d + 1)}
                            stack.extend(v for v in y.values() if isinstance(v, (dict, list)))
        self.leads[fid] = frozenset(r)
        return self.leads[fid]

    # ---- what a function changes
    def summary(self, fid, trail=()):
        """{(key, kind, how)}; keys of parameters are ("p", i)"""
        if fid in self.sums:
            return self.sums[fid]
        if fid in trail or len(trail) > 30:
            return frozenset()
        f = self.p.functions.get(fid)
        if not f or not f.get("body"):
            return frozenset()
        out = set()
        env = {}
        ids = {q["id"]: i for i, q in enumerate(f.get("params") or [])}
        self.aliases(f, env)
        local = set()

        def at(x):
            for key, kd, how, _, _ in self.effects(x, env, trail + (fid,)):
                if isinstance(key, tuple) and key[0] == "v":
                    if key[1] in ids:
                        q = f["params"][ids[key[1]]]["type"].rstrip()
                        if q.endswith("&") or q.endswith("*"):
                            out.add((("p", ids[key[1]]), kd, how))
                    elif f["name"].endswith("operator()") or "lambda" in f["name"] or "lambda" in (f.get("cls") or ""):
                        out.add((key, kd, how))     # a captured local
                    continue
                if isinstance(key, tuple) and key[0] == "f" and key[2] != "this":
                    key = ("f", key[1], None)
                out.add((key, kd, how))
        visit([f.get("inits"), f["body"]], at)
        r = frozenset(out)
        if not trail:
            self.sums[fid] = r
        return r

    def aliases(self, f, env):
        env["params"] = {q["id"] for q in f.get("params") or []}
        def at(x):
            if x.get("k") == "decl":
                for v in x.get("vars") or []:
                    t = (v.get("type") or "").rstrip()
                    if v.get("init") is not None and (t.endswith("&") or t.endswith("*")) and kind(t.rstrip("&* ")):
                        env[("alias", v["id"])] = self.container(v["init"], env)
        visit(f.get("body"), at)

    def effects(self, x, env, trail):
        """[(key, kind, how, erased-argument, line)] of one expression node"""
        out = []
        k = x.get("k")
        if k == "call":
            c = x.get("callee") or {}
            name = c.get("name") or ""
            short = name.rsplit("::", 1)[-1]
            obj = x.get("obj")
            args = x.get("args") or []
            ks = self.container(obj, env) if obj is not None else frozenset()
            own = self.p.functions.get(c.get("fn"))
            if ks and (not own or not own.get("body") or any(kd == "tree" for _, kd in ks)) and not c.get("const"):
                how = "erase" if short in ERASE else "grow" if short in GROW else "clear" if short in CLEAR else None
                if how is None and short == "operator[]" and any(kd in ("hash", "map") for _, kd in ks):
                    how = "grow"
                for key, kd in ks if how else ():
                    if kd == "tree" and how == "clear" and short != "clear":
                        continue
                    out.append((key, kd, how, args[0] if args else None, x.get("l")))
            elif obj is None and re.match(r"^std::erase(_if)?$", name) and args:
                for key, kd in self.container(args[0], env):
                    out.append((key, kd, "erase", None, x.get("l")))
            elif own and own.get("body") and not own["name"].startswith("std::"):
                ids = [c["fn"]] + (self.p.all_overriders(c["fn"]) if c.get("virtual") else [])
                for i in ids:
                    for key, kd, how in self.summary(i, trail):
                        if isinstance(key, tuple) and key[0] == "f":
                            r = root(obj, env) if key[2] == "this" and obj is not None else None
                            out.append((("f", key[1], r), kd, how, ("via", args), x.get("l")))
                        elif isinstance(key, tuple) and key[0] == "p":
                            for key2, kd2 in (self.container(args[key[1]], env) if key[1] < len(args) else ()):
                                out.append((key2, kd2, how, ("via", args), x.get("l")))
                        else:
                            out.append((key, kd, how, ("via", args), x.get("l")))
            # callbacks handed over run now
            for a in args:
                b = strip(a)
                for fn in self.callbacks(b, env):
                    for key, kd, how in self.summary(fn, trail):
                        if not (isinstance(key, tuple) and key[0] == "p"):
                            out.append((key, kd, how, ("callback", ks), x.get("l")))
        elif k == "asg" and x.get("op", "=") == "=":
            for key, kd in self.container(x.get("a"), env):
                out.append((key, kd, "clear", None, x.get("l")))
        return out

    def callbacks(self, b, env):
        if not isinstance(b, dict):
            return []
        if b.get("k") == "lambda" and b.get("fn"):
            return [b["fn"]]
        if b.get("k") == "var" and env.get(("lambda", b.get("id"))):
            return [env[("lambda", b["id"])]]
        if b.get("k") == "ctor":
            return [f for a in b.get("args") or [] for f in self.callbacks(strip(a), env)]
        return []

    # ---- one function
    def check(self, f, report, count):
        a = Walk(self, f, report, count)
        a.run()


def collect(x, k, out):
    if isinstance(x, list):
        for y in x:
            collect(y, k, out)
    elif isinstance(x, dict):
        if x.get("k") == k:
            out.append(x)
        for v in x.values():
            if isinstance(v, (dict, list)):
                collect(v, k, out)


def visit(x, fn):
    if isinstance(x, list):
        for y in x:
            visit(y, fn)
    elif isinstance(x, dict):
        fn(x)
        for v in x.values():
            if isinstance(v, (dict, list)):
                visit(v, fn)


ITER = re.compile(r"[Ii]terator|^__gnu_cxx")


class Walk:
    """facts: ("dep", var, key, kind, cls, via) and ("dead", var, why)"""
    def __init__(self, L, f, report, count):
        self.L, self.p, self.f, self.report, self.count = L, L.p, f, report, count
        self.env = {}
        L.aliases(f, self.env)
        visit(f.get("body"), self.lambdas)
        self.brk, self.cont, self.exits = [], [], []
        self.said = set()

    def lambdas(self, x):
        if x.get("k") == "decl":
            for v in x.get("vars") or []:
                i = strip(v.get("init"))
                while isinstance(i, dict) and i.get("k") == "ctor" and len(i.get("args") or []) == 1:
                    i = strip(i["args"][0])
                if isinstance(i, dict) and i.get("k") == "lambda":
                    self.env[("lambda", v["id"])] = i.get("fn")

    def run(self):
        self.stmt(self.f.get("body"), frozenset())

    # what an initialiser leads into: {(key, kind, via)}
    def into(self, e, st, d=0):
        e = strip(e)
        if not isinstance(e, dict) or d > 10:
            return set()
        k = e.get("k")
        if k == "var":
            own = {(x[2], x[3], e.get("id")) for x in st if x[0] == "dep" and x[1] == e.get("id")}
            return own
        if k == "un":
            return self.into(e.get("e"), st, d + 1)
        if k in ("mem", "idx"):
            b = e.get("base") if k == "mem" else e.get("a")
            c = self.L.container(b, self.env)
            r = {(x, y, None) for x, y in c} if k == "idx" else set()
            return r | self.into(b, st, d + 1)
        if k == "call":
            name = (e.get("callee") or {}).get("name") or ""
            short = name.rsplit("::", 1)[-1]
            obj = e.get("obj")
            r = set()
            if obj is not None:
                c = self.L.container(obj, self.env)
                if c and short in LEADS:
                    r |= {(x, y, None) for x, y in c}
                    if short == "erase":
                        return r
                elif e.get("op") in ("*", "->", "++", "--", "+", "-", "[]") or short in ("get", "operator*", "operator->"):
                    r |= self.into(obj, st, d + 1)
            if name in THROUGH or e.get("op"):
                for a in e.get("args") or []:
                    got = self.into(a, st, d + 1)
                    r |= {(x, y, None) for x, y, _ in got} if short in ("next", "prev") else got
            if not r and short not in ("operator*", "operator->") and ITER.search((e.get("callee") or {}).get("ret") or e.get("dt") or e.get("t") or ""):
                r |= {(x, y, None) for x, y in self.L.container(e, self.env)}
            if short in ("find", "begin", "end") and obj is None:
                for a in e.get("args") or []:
                    r |= {(x, y, None) for x, y in self.L.container(a, self.env)}
            return r
        if k == "bin":
            return self.into(e.get("a"), st, d + 1) | self.into(e.get("b"), st, d + 1)
        if k == "ctor":
            r = set()
            if e.get("copymove") or ITER.search(e.get("t") or ""):
                for a in e.get("args") or []:
                    r |= self.into(a, st, d + 1)
            return r
        if k == "cond":
            return self.into(e.get("a"), st, d + 1) | self.into(e.get("b"), st, d + 1)
        return set()

    @staticmethod
    def forget(var, st):
        """var names another element from here on: what was reached through it stands alone"""
        return frozenset(x[:5] + (None,) if x[0] == "dep" and x[5] == var else x for x in st)

    def bind(self, var, t, e, st):
        old = self.into(e, st)
        st = frozenset(x for x in st if not (x[0] in ("dep", "dead") and x[1] == var))
        st = self.forget(var, st)
        t = (t or "").rstrip()
        cls = None
        if t.endswith("&"):
            cls = "ref"
        elif t.endswith("*"):
            y = strip(e)
            addr = isinstance(y, dict) and (y.get("k") == "un" and y.get("op") == "&")
            got = isinstance(y, dict) and y.get("k") == "call" and (y.get("callee") or {}).get("name", "").endswith("::get") and "unique_ptr" in (y.get("callee") or {}).get("name", "")
            cls = "ref" if addr else "own" if got else None
        elif ITER.search(t):
            cls = "it"
        if cls and not kind(t.rstrip("&* ")):
            for key, kd, via in old:
                st = st | {("dep", var, key, kd, cls, None if via == var else via)}
                self.count(1)
        return st

    # ---- events in evaluation order (children first)
    def ev(self, e, st, target=False):
        if isinstance(e, list):
            for x in e:
                st = self.ev(x, st)
            return st
        if not isinstance(e, dict):
            return st
        k = e.get("k")
        if k == "lambda":
            return st
        if k == "var":
            if not target:
                for x in st:
                    if x[0] == "dead" and x[1] == e.get("id"):
                        self.say(e, x)
            return st
        if k == "asg" and e.get("op", "=") == "=" and strip(e.get("a")).get("k") == "var":
            st = self.ev(e.get("b"), st)
            st = self.change(e, st)
            v = strip(e["a"])
            return self.bind(v.get("id"), v.get("dt") or v.get("t"), e.get("b"), st)
        if k == "call" and e.get("op") == "=" and e.get("obj") is not None and strip(e["obj"]).get("k") == "var" and not self.L.container(e["obj"], self.env):
            st = self.ev(e.get("args"), st)
            v = strip(e["obj"])
            return self.bind(v.get("id"), v.get("dt") or v.get("t"), (e.get("args") or [None])[0], st)
        for key, v in e.items():
            if isinstance(v, (dict, list)) and key not in ("callee",):
                st = self.ev(v, st)
        st = self.change(e, st)
        if e.get("op") in ("++", "--") and k in ("un", "call"):
            v = strip(e.get("e") if k == "un" else e.get("obj") or (e.get("args") or [None])[0])
            if isinstance(v, dict) and v.get("k") == "var":
                st = self.forget(v.get("id"), st)
        return st

    def say(self, e, x):
        key = (x[1], e.get("l"), x[2])
        if key not in self.said:
            self.said.add(key)
            self.report(e.get("name") or "the element being visited", e.get("l"), x[2])

    def change(self, e, st):
        for key, kd, how, arg, line in self.L.effects(e, self.env, ()):
            self.count(0)
            if isinstance(arg, tuple) and arg[0] == "callback" and any(same(key, k2) for k2, _ in arg[1]):
                self.report("the container", line, "a callback changes the container that is running it")
                continue
            dead = set()
            deps = [x for x in st if x[0] == "dep" and same(x[2], key)]
            whole = how == "clear" or how == "erase" and kd == "vec" or how == "grow" and kd == "vec"
            named = self.named(arg, st)
            for x in deps:
                loop = isinstance(x[1], tuple)
                if whole:
                    if x[4] == "own" and how == "grow":
                        continue
                    dead.add(x[1])
                elif how == "grow":
                    if kd in ("hash", "tree") and (loop or x[4] == "it" and kd == "hash"):
                        dead.add(x[1])
                elif how == "erase":
                    if loop or x[1] in named or arg is None:
                        dead.add(x[1])
            if how == "erase" and isinstance(arg, tuple) and arg[0] == "via" and isinstance(key, tuple) and key[0] == "f":
                # the element removed is the one handed over by address
                for a in arg[1]:
                    a = strip(a)
                    t = (a.get("dt") or a.get("t") or "").rstrip() if isinstance(a, dict) and a.get("k") == "var" else ""
                    if t.endswith("*") and re.match(r"^[\w: ]*<(std::unique_ptr<)?%s[,>]" % re.escape(t.rstrip("* ").replace("const ", "")), self.L.types.get(key[1], "")):
                        dead.add(a.get("id"))
                        self.count(1)
            # what was reached through something dead is dead with it (not when a vector merely grew elements owned elsewhere)
            if not (how == "grow"):
                dead |= {x[1] for x in st if x[0] == "dep" and x[5] in dead}
            why = {"erase": "an element was removed from its container", "grow": "its container grew", "clear": "its container was emptied or replaced"}[how] + " at line %s" % line
            st = st | {("dead", v, why) for v in dead}
        return st

    def named(self, arg, st):
        """the variables an erased element is named by"""
        if arg is None:
            return set()
        args = arg[1] if isinstance(arg, tuple) else [arg]
        if isinstance(arg, tuple) and arg[0] == "callback":
            return set()
        out = set()

        def go(e):
            e = strip(e)
            if not isinstance(e, dict):
                return
            if e.get("k") == "var":
                out.add(e.get("id"))
                for x in st:
                    if x[0] == "dep" and x[1] == e.get("id") and x[5] is not None:
                        out.add(x[5])
                return
            if e.get("k") == "call":
                post = e.get("op") in ("++", "--") and e.get("args")
                if post or (e.get("callee") or {}).get("name") in ("std::next", "std::prev"):
                    return
                if e.get("obj") is not None:
                    go(e["obj"])
                if (e.get("callee") or {}).get("name") in THROUGH:
                    for a in e.get("args") or []:
                        go(a)
                return
            if e.get("k") == "un" and e.get("post"):
                return
            for key in ("e", "base", "a"):
                if isinstance(e.get(key), dict):
                    go(e[key])
            if e.get("k") == "ctor":
                for a in e.get("args") or []:
                    go(a)
        for a in args:
            go(a)
        # aliases of the same element
        return out

    # ---- statements
    def join(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = r | s
        return r

    def stmt(self, s, st):
        if s is None or st is None:
            return st
        k = s.get("k")
        if k == "block":
            for x in s.get("c") or []:
                st = self.stmt(x, st)
                if st is None:
                    return None
            return st
        if k == "decl":
            for v in s.get("vars") or []:
                if v.get("init") is not None:
                    st = self.ev(v["init"], st)
                    st = self.bind(v.get("id"), v.get("type"), v["init"], st)
            return st
        if k == "expr":
            st = self.ev(s.get("e"), st)
            return None if strip(s.get("e")) and strip(s["e"]).get("k") == "throw" else st
        if k == "if":
            if isinstance(s.get("init"), dict):
                st = self.stmt(s["init"], st)
            st = self.ev(s.get("cond"), st)
            return self.join([self.stmt(s.get("then"), st), self.stmt(s["else"], st) if s.get("else") else st])
        if k in ("for", "while", "do", "rangefor"):
            return self.loop(s, st)
        if k == "switch":
            st = self.ev(s.get("cond"), st)
            sb = self.brk
            self.brk = []
            cur, total = None, s.get("hasDefault")
            for x in (s.get("body") or {}).get("c") or []:
                while isinstance(x, dict) and x.get("k") in ("case", "default"):
                    cur = self.join([cur, st])
                    x = x.get("sub")
                cur = self.stmt(x, cur) if cur is not None else None
            r = self.join([cur, st] + self.brk)
            self.brk = sb
            return r
        if k in ("case", "default"):
            return self.stmt(s.get("sub"), st)
        if k == "return":
            self.ev(s.get("e"), st)
            return None
        if k == "break":
            self.brk.append(st)
            return None
        if k == "continue":
            self.cont.append(st)
            return None
        if k == "try":
            out = self.stmt(s.get("body"), st)
            return self.join([out] + [self.stmt(h.get("body"), st) for h in s.get("handlers") or [] if isinstance(h, dict)])
        for v in s.values():
            if isinstance(v, (dict, list)):
                st = self.ev(v, st)
        return st

    def loop(self, s, st):
        k = s.get("k")
        sb, sc = self.brk, self.cont
        me = ("loop", id(s))
        if k == "rangefor":
            st = self.ev(s.get("range"), st)
            keys = {(x, y) for x, y in self.L.container(s.get("range"), self.env)} | {(x, y) for x, y, _ in self.into(s.get("range"), st) if "iew" in (s.get("rtype") or "") or "subrange" in (s.get("rtype") or "")}
            for key, kd in keys:
                st = st | {("dep", me, key, kd, "it", None)}
                self.count(1)
        elif s.get("init"):
            st = self.stmt(s["init"], st)
        total, outs = st, []
        for _ in range(3):
            self.brk, self.cont = [], []
            cur = total
            if k in ("for", "while"):
                cur = self.ev(s.get("cond"), cur)
            if k == "rangefor":
                v = s.get("var") or {}
                cur = frozenset(x for x in cur if not (x[0] in ("dep", "dead") and x[1] == v.get("id")))
                t = (v.get("type") or "").rstrip()
                if t.endswith("&"):
                    for x in [x for x in cur if x[0] == "dep" and x[1] == me]:
                        cur = cur | {("dep", v.get("id"), x[2], x[3], "ref", me)}
            out = self.stmt(s.get("body"), cur)
            back = self.join([out] + self.cont)
            outs = self.brk
            if back is not None:
                if k == "rangefor":
                    for x in back:
                        if x[0] == "dead" and x[1] == me:
                            self.say({"l": s.get("l")}, x)
                    back = frozenset(x for x in back if not (x[0] == "dead" and x[1] == me))
                if k == "for":
                    back = self.ev(s.get("inc"), back)
                if k == "do":
                    back = self.ev(s.get("cond"), back)
                new = total | back
            else:
                new = total
            if new == total:
                break
            total = new
        self.brk, self.cont = sb, sc
        r = self.join(([total] if k != "do" else [back]) + outs)
        return None if r is None else frozenset(x for x in r if x[1] != me)
