"""Effect analysis: what a function may write besides its own locals.
Roots of a written place: "this", ("param", i), "global", "heap", "?"; a local
reference or pointer stands for what it was bound to."""
import re

MUTATORS = re.compile(r"^std::(ranges::)?(swap|iter_swap|sort|stable_sort|partial_sort|nth_element|reverse|rotate|shuffle|remove|remove_if|erase|erase_if|fill|fill_n|iota|copy|copy_if|move_backward|transform|partition|stable_partition|generate|exchange|unique|push_heap|pop_heap|make_heap|advance|destroy_at|construct_at)$")
ACCESS = {"begin", "end", "rbegin", "rend", "data", "front", "back", "operator[]", "at", "find", "get", "operator*", "operator->", "value", "first", "second",
          "operator bool", "operator==", "operator!=", "operator<", "operator()", "lower_bound", "upper_bound", "cbegin", "cend", "top", "equal_range", "count", "size", "empty", "has_value", "value_or", "c_str"}
PURE_STD = {"std::forward", "std::move", "std::get", "std::addressof", "std::as_const", "std::next", "std::prev", "std::begin", "std::end", "std::size", "std::data"}


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.memo = {}

    # -- where a place belongs ------------------------------------------
    def env(self, f):
        env = {}
        for i, q in enumerate(f.get("params", [])):
            env[q["id"]] = ("param", i, q["type"].rstrip())
        stack = [f.get("inits") or [], f.get("body")]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
            elif isinstance(x, dict):
                if x.get("k") == "rangefor":
                    v = x.get("var") or {}
                    env[v.get("id")] = ("var", x.get("range"), (v.get("type") or "").rstrip())
                    for n in ("rangeVar", "beginVar", "endVar"):
                        env[x.get(n)] = ("var", x.get("range"), "iterator")
                elif x.get("k") == "decl":
                    for v in x.get("vars", []):
                        env[v.get("id")] = ("var", v.get("init"), (v.get("type") or "").rstrip() + (" static" if v.get("static") else ""))
                elif x.get("k") == "lambda":
                    for q in x.get("params") or []:
                        if isinstance(q, dict):
                            env[q.get("id")] = ("var", None, (q.get("type") or "").rstrip())
                stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        return env

    def place(self, e, env, d=0):
        """the owner of the object an expression names"""
        if not isinstance(e, dict) or d > 12:
            return {"?"}
        k = e.get("k")
        if k in ("var", "binding"):
            if e.get("global"):
                return {"global"}
            v = env.get(e.get("id"))
            if v is None:
                return {"?"} if (e.get("dt") or "").rstrip().endswith("&") else {"local"}
            if v[2].endswith("static"):
                return {"global"}
            if not v[2].endswith("&"):
                return {"local"}
            return {v[:2]} if v[0] == "param" else self.place(v[1], env, d + 1)
        if k == "mem":
            if e.get("base") is None:
                return {"this"}
            return self.points(e["base"], env, d + 1) if e.get("arrow") else self.place(e["base"], env, d + 1)
        if k == "un":
            return self.points(e.get("e"), env, d + 1) if e.get("op") == "*" else self.place(e.get("e"), env, d + 1)
        if k == "idx":
            return self.place(e.get("a"), env, d + 1) if e.get("n") else self.points(e.get("a"), env, d + 1)
        if k == "cast":
            return self.place(e.get("e"), env, d + 1)
        if k == "bin":
            return self.place(e.get("b"), env, d + 1)
        if k == "asg":
            return self.place(e.get("a"), env, d + 1)
        if k == "cond":
            return self.place(e.get("a"), env, d + 1) | self.place(e.get("b"), env, d + 1)
        if k == "call":
            if not (((e.get("callee") or {}).get("ret") or "").rstrip().endswith("&")):
                return {"local"}
            return self.returned(e, env, d)
        if k == "this":
            return {"this"}
        return {"local"}

    def points(self, e, env, d=0):
        """the owner of what a pointer, iterator or view leads to"""
        if not isinstance(e, dict) or d > 12:
            return {"?"}
        k = e.get("k")
        if k == "this":
            return {"this"}
        if k in ("var", "binding"):
            v = env.get(e.get("id"))
            if e.get("global"):
                return {"global"}
            if v is None:
                return {"?"}
            if v[0] == "param":
                return {v[:2]}
            if v[1] is None:
                return {"?"}
            if v[2].endswith("&"):
                return self.place(v[1], env, d + 1)
            return self.points(v[1], env, d + 1)
        if k == "un" and e.get("op") == "&":
            return self.place(e.get("e"), env, d + 1)
        if k in ("un", "cast"):
            return self.points(e.get("e"), env, d + 1)
        if k in ("bin", "asg"):
            return self.points(e.get("a"), env, d + 1)
        if k == "cond":
            return self.points(e.get("a"), env, d + 1) | self.points(e.get("b"), env, d + 1)
        if k == "call":
            return self.returned(e, env, d)
        if k in ("mem", "idx"):
            return self.place(e, env, d + 1)
        if k in ("ctor", "init"):
            r = set()
            for a in e.get("args") or e.get("elems") or []:
                r |= self.points(a, env, d + 1)
            return r or {"local"}
        return {"local"}

    def returned(self, e, env, d):
        obj = e.get("obj")
        if obj is not None:
            return self.points(obj, env, d + 1) if e.get("arrow") or self.leads(obj, env) else self.place(obj, env, d + 1)
        r = set()
        for a in e.get("args") or []:
            r |= self.arg(a, env, d + 1)
        return r or {"global"}

    def leads(self, e, env):
        t = (e.get("t") or e.get("dt") or "")
        if e.get("k") == "var" and env.get(e.get("id"), ("", 0, ""))[2] == "iterator":
            return True
        return bool(re.search(r"[Ii]terator|View|\*\s*(const)?$", t))

    def arg(self, a, env, d=0):
        return self.points(a, env, d) if self.leads(a, env) else self.place(a, env, d)

    # -- what a function writes -----------------------------------------
    def of(self, fid, trail=()):
        if fid in self.memo:
            return self.memo[fid]
        if fid in trail or len(trail) > 40:
            return {}
        f = self.p.functions.get(fid)
        if not f or not f.get("body"):
            return {}
        env = self.env(f)
        out = {}

        def note(roots, what, line):
            for r in roots:
                if r != "local" and r not in out:
                    out[r] = "%s at %s:%s" % (what, f["file"].rsplit("/", 1)[-1], line)
        self.scan([f.get("inits") or [], f["body"]], env, note, trail + (fid,))
        if f.get("ctor"):
            out.pop("this", None)
        if not trail:
            self.memo[fid] = out
        return out

    def scan(self, code, env, note, trail):
        stack = [code]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
                continue
            if not isinstance(x, dict):
                continue
            k = x.get("k")
            if k == "asg":
                note(self.place(x.get("a"), env), "a write", x.get("l"))
            elif k == "un" and x.get("op", "")[:2] in ("++", "--"):
                note(self.place(x.get("e"), env), "a change by one", x.get("l"))
            elif k == "delete":
                note({"heap"}, "a deletion", x.get("l"))
            elif k == "call":
                self.call(x, env, note, trail)
            elif k == "ctor":
                c = (x.get("callee") or {}).get("fn")
                if c:
                    self.passed(c, x, None, env, note, trail)
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))

    def passed(self, c, x, obj, env, note, trail):
        for r, why in self.of(c, trail).items():
            if r == "this":
                if obj is not None:
                    note(self.owner(x, env), "a call of %s (%s)" % (self.p.functions[c]["name"], why), x.get("l"))
            elif isinstance(r, tuple):
                args = x.get("args") or []
                if r[1] < len(args):
                    note(self.arg(args[r[1]], env), "a call of %s (%s)" % (self.p.functions[c]["name"], why), x.get("l"))
            else:
                note({r}, "a call of %s (%s)" % (self.p.functions[c]["name"], why), x.get("l"))

    def call(self, x, env, note, trail):
        c = x.get("callee") or {}
        fid, name = c.get("fn"), c.get("name") or ""
        obj = x.get("obj")
        f = self.p.functions.get(fid)
        if f and f.get("body"):
            ids = [fid] + (self.p.all_overriders(fid) if c.get("virtual") else [])
            for i in ids:
                self.passed(i, x, obj, env, note, trail)
            return
        if name.startswith("std::") or "::std::" in name or not f:
            last = name.rsplit("::", 1)[-1]
            if obj is not None:
                if not c.get("const") and not c.get("static") and last not in ACCESS:
                    note(self.owner(x, env), "a call of %s" % name, x.get("l"))
            elif MUTATORS.match(name):
                for a in x.get("args") or []:
                    note(self.arg(a, env), "a call of %s" % name, x.get("l"))

    def owner(self, x, env):
        o = x["obj"]
        return self.points(o, env) if x.get("arrow") else self.place(o, env)

    def expr(self, f, e):
        """what one expression of a function changes, its locals included"""
        env = self.env(f)
        out = {}
        self.scan(e, env, lambda rs, what, l: [out.setdefault(str(r), what) for r in rs if r != "local"], ())
        def local(x):
            k = x.get("k")
            if k == "asg" or k == "un" and x.get("op", "")[:2] in ("++", "--"):
                out.setdefault("a", "a write")
        stack = [e]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
            elif isinstance(x, dict):
                local(x)
                if x.get("k") == "call" and x.get("obj") is not None and not (x.get("callee") or {}).get("const") and not (x.get("callee") or {}).get("static"):
                    # of a local object
                    c = (x.get("callee") or {}).get("fn")
                    g = self.p.functions.get(c)
                    last = ((x.get("callee") or {}).get("name") or "").rsplit("::", 1)[-1]
                    if "this" in self.of(c) if g and g.get("body") else last not in ACCESS:
                        out.setdefault("o", "a call of %s" % x["callee"].get("name"))
                if x.get("k") != "lambda":
                    stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        return out
