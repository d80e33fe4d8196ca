"""Definite assignment: which variables and fields may be read, or left behind
by a constructor, without ever having been given a value.

A type is *raw* when default-initialising it leaves at least one number, flag or
pointer of it without a value.  A place is a local variable or a field of the
object under construction; a place counts as written once something was stored
in it, in one of its elements or through a reference to it."""
import re

SCALAR = re.compile(r"^(const )?(float|double|int|unsigned int|unsigned|bool|char|signed char|unsigned char|short|unsigned short|long|unsigned long|long long|unsigned long long|std::size_t|size_t|std::byte)$")


def bare(t):
    return re.sub(r"\[\d*\]", "", t or "").replace("const ", "").strip()


class Types:
    def __init__(self, prog):
        self.p = prog
        self.byname = {}
        for r in prog.records.values():
            self.byname.setdefault(r["name"], r)
        self.enums = set()
        stack = [[f.get("body"), f.get("inits")] for f in prog.functions.values()]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
            elif isinstance(x, dict):
                if x.get("enum") and x.get("t"):
                    self.enums.add(bare(x["t"]))
                stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        self.memo = {}
        self.ctors = {}
        for f in prog.functions.values():
            if f.get("ctor"):
                self.ctors.setdefault(f.get("cls"), []).append(f)

    def scalar(self, t):
        t = bare(t)
        return bool(SCALAR.match(t)) or t.endswith("*") or t in self.enums

    def raw(self, t, d=0):
        """default-initialised, an object of this type has a part without a value"""
        t = bare(t)
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = False
        r = False
        if self.scalar(t):
            r = True
        elif t.startswith("std::array<"):
            m = re.match(r"std::array<(.*), \d+>$", t)
            r = bool(m) and self.raw(m.group(1), d + 1)
        else:
            rec = self.byname.get(t)
            if rec and not t.startswith("std::") and not rec.get("union"):
                user = [c for c in self.ctors.get(t, []) if c.get("defctor") and not c.get("implicit") and not c.get("explicitdefault") and not c.get("deleted")]
                if not user:
                    r = any(not x.get("hasinit") and not x["type"].endswith("&") and self.raw(x["type"], d + 1) for x in rec["fields"])
                    r = r or any(self.raw(b["name"] if isinstance(b, dict) else b, d + 1) for b in rec.get("bases") or [])
        self.memo[t] = r
        return r


    def open_fields(self, t):
        """the fields default-initialising an object of a raw record leaves without a value"""
        rec = self.byname.get(bare(t))
        if not rec or not self.raw(t):
            return []
        out = [rec["plain"] + "::" + x["name"] for x in rec["fields"] if x["name"] and not x.get("hasinit") and not x["type"].endswith("&") and self.raw(x["type"])]
        for b in rec.get("bases") or []:
            out += self.open_fields(b["name"] if isinstance(b, dict) else b)
        return out


class Flow:
    """one function; places are ("v", id) and ("f", field)"""
    def __init__(self, types, f, fields=(), report=None, depth=0, report_fields=True):
        self.T, self.p, self.f = types, types.p, f
        self.fields = set(fields)
        self.vars = {}
        self.report = report or (lambda *a: None)
        self.quiet = 0
        self.depth = depth
        self.brk, self.cont, self.exits = [], [], []
        self.consts = {}
        self.excuse = None      # a condition under which the object is unusable anyway
        self.under = []

    # ---- places
    def place(self, e):
        """(root, exact) of an lvalue"""
        while isinstance(e, dict):
            k = e.get("k")
            if k == "cast":
                e = e.get("e")
            elif k == "var":
                v = ("v", e.get("id"))
                return v if v in self.vars else None
            elif k == "mem":
                b = e.get("base")
                while isinstance(b, dict) and b.get("k") == "cast":
                    b = b.get("e")
                if b is None or isinstance(b, dict) and b.get("k") == "this":
                    return ("f", e.get("field")) if e.get("field") in self.fields else None
                if e.get("arrow"):
                    return None
                e = b
            elif k == "idx":
                e = e.get("a")
            elif k == "call" and e.get("obj") is not None and (e.get("callee") or {}).get("name", "").rsplit("::", 1)[-1] in ("operator[]", "operator()", "at", "front", "back", "begin", "end", "data", "asVec"):
                e = e["obj"]
            else:
                return None
        return None

    def read(self, pl, e, st):
        if pl is not None and pl not in st and not self.quiet:
            self.report(pl, self.vars.get(pl) or pl[1], e.get("l"), self.f)

    # ---- expressions
    def ev(self, e, st, mode="r"):
        if isinstance(e, list):
            for x in e:
                st = self.ev(x, st)
            return st
        if not isinstance(e, dict):
            return st
        k = e.get("k")
        if k in ("var", "mem", "idx"):
            pl = self.place(e)
            if k == "idx":
                st = self.ev(e.get("b") or e.get("i"), st)
            if k == "mem" and pl is None:
                st = self.ev(e.get("base"), st, "r" if e.get("arrow") else mode)
            if k == "idx" and pl is None:
                st = self.ev(e.get("a"), st, mode)
            if pl is not None:
                if mode == "r":
                    self.read(pl, e, st)
                else:
                    st = st | {pl}
            return st
        if k == "asg":
            st = self.ev(e.get("b"), st)
            if e.get("op") not in ("=", None):
                pl = self.place(e.get("a"))
                if pl:
                    self.read(pl, e, st)
            return self.ev(e.get("a"), st, "w")
        if k == "un":
            op = e.get("op")
            if op == "&":
                return self.ev(e.get("e"), st, "w")
            if op in ("++", "--"):
                st = self.ev(e.get("e"), st)
                return self.ev(e.get("e"), st, "w")
            return self.ev(e.get("e"), st)
        if k == "bin" and e.get("op") in ("&&", "||"):
            st = self.ev(e.get("a"), st)
            self.ev(e.get("b"), st)
            return st
        if k == "cond":
            st = self.ev(e.get("c") or e.get("cond"), st)
            a, b = self.ev(e.get("a"), st, mode), self.ev(e.get("b"), st, mode)
            return a & b
        if k == "cast":
            return self.ev(e.get("e"), st, mode)
        if k == "lambda":
            return self.lam(e, st)
        if k == "throw":
            st = self.ev(e.get("e"), st)
            return st
        if k == "call":
            return self.call(e, st, mode)
        if k == "ctor":
            return self.args(e, st)
        for key, v in e.items():
            if isinstance(v, (dict, list)) and key not in ("callee",):
                st = self.ev(v, st)
        return st

    def ptypes(self, c):
        f = self.p.functions.get((c or {}).get("fn"))
        return [q["type"] for q in f["params"]] if f else None

    def args(self, e, st):
        pt = self.ptypes(e.get("callee"))
        for i, a in enumerate(e.get("args") or []):
            t = pt[i] if pt and i < len(pt) else None
            st = self.ev(a, st, self.argmode(t, e, a))
        return st

    def argmode(self, t, e, a):
        n = (e.get("callee") or {}).get("name") or ""
        if t is None:
            return "w" if n in ("std::swap", "std::tie", "std::exchange", "std::ref") else "r"
        t = t.strip()
        if t.endswith("&&"):
            return "r"
        if t.endswith("&") and not t.startswith("const "):
            return "w"
        return "r"

    def call(self, e, st, mode):
        c = e.get("callee") or {}
        obj = e.get("obj")
        name = (c.get("name") or "")
        if e.get("calleeExpr"):
            st = self.ev(e["calleeExpr"], st)
        st = self.args(e, st)
        if obj is not None:
            pl = self.place(e) if not e.get("arrow") else None
            o = obj
            while isinstance(o, dict) and o.get("k") == "cast":
                o = o.get("e")
            own = isinstance(o, dict) and o.get("k") == "this"
            if own:
                return self.own(c, st, e.get("args") or [])
            if pl is not None:
                if mode == "r" and not name.endswith("::end") and not name.endswith("::begin") and not name.endswith("::data"):
                    self.read(pl, e, st)
                elif not (c.get("const") and name.rsplit("::", 1)[-1] in ("begin", "end", "data")):
                    st = st | {pl}
                return st
            if e.get("arrow"):
                return self.ev(obj, st)
            if c.get("const") or c.get("static"):
                return self.ev(obj, st)
            return self.ev(obj, st, "w" if (name.rsplit("::", 1)[-1] not in ("operator*", "operator->", "get")) else mode)
        return st

    def own(self, c, st, args=()):
        """a call on the object itself: what the callee writes of its fields"""
        g = self.p.functions.get(c.get("fn"))
        if not g or not g.get("body") or self.depth > 3:
            return st
        sub = Flow(self.T, g, self.fields, self.report, self.depth + 1)
        sub.quiet = self.quiet
        for q, a in zip(g.get("params") or [], args):
            if isinstance(a, dict) and a.get("k") == "lit" and isinstance(a.get("v"), bool):
                sub.consts[q["id"]] = a["v"]
        out = sub.run(frozenset(x for x in st if x[0] == "f"))
        return st | out

    def lam(self, e, st):
        st2 = st
        self.quiet += 1
        save = self.brk, self.cont, self.exits
        self.brk, self.cont, self.exits = [], [], []
        try:
            g = self.p.functions.get(e.get("fn")) or {}
            out = self.stmt(g.get("body"), st2)
            outs = ([out] if out is not None else []) + self.exits
        finally:
            self.quiet -= 1
            self.brk, self.cont, self.exits = save
        if outs:
            r = outs[0]
            for o in outs[1:]:
                r &= o
            return st | r
        return st

    # ---- statements
    def join(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = r & s
        return r

    def stmts(self, l, st):
        for s in l or []:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if s is None or st is None:
            return st
        k = s.get("k")
        if k == "block":
            return self.stmts(s.get("c"), st)
        if k == "decl":
            for v in s.get("vars") or []:
                st = self.decl(v, st)
            return st
        if k == "expr":
            e = s.get("e")
            st = self.ev(e, st)
            x = e
            while isinstance(x, dict) and x.get("k") == "cast":
                x = x.get("e")
            if isinstance(x, dict) and (x.get("k") == "throw" or (x.get("callee") or {}).get("name") in ("std::abort", "std::terminate", "abort", "exit")):
                return None
            return st
        if k == "if":
            for x in ("init",):
                if isinstance(s.get(x), dict):
                    st = self.stmt(s[x], st)
            st = self.ev(s.get("cond"), st)
            if s.get("constexpr") and isinstance(s.get("value"), bool):
                return self.stmt(s.get("then") if s["value"] else s.get("else"), st)
            c, flip = s.get("cond"), False
            while isinstance(c, dict) and (c.get("k") == "cast" or c.get("k") == "un" and c.get("op") == "!"):
                flip ^= c.get("k") == "un"
                c = c.get("e")
            if isinstance(c, dict) and c.get("k") == "var" and c.get("id") in self.consts:
                b = s.get("then") if self.consts[c["id"]] ^ flip else s.get("else")
                return self.stmt(b, st) if b else st
            self.under.append(s.get("cond"))
            r = self.join([self.stmt(s.get("then"), st), self.stmt(s.get("else"), st) if s.get("else") else st])
            self.under.pop()
            return r
        if k in ("for", "while", "do", "rangefor"):
            return self.loop(s, st)
        if k == "switch":
            return self.switch(s, st)
        if k in ("case", "default"):
            return self.stmt(s.get("sub"), st) if s.get("sub") else st
        if k == "return":
            st = self.ev(s.get("e"), st)
            if self.excuse and any(self.excuse(c) for c in self.under):
                st = st | {("f", x) for x in self.fields}
            self.exits.append(st)
            return None
        if k == "break":
            self.brk.append(st)
            return None
        if k == "continue":
            self.cont.append(st)
            return None
        if k == "try":
            out = self.stmt(s.get("body"), st)
            return self.join([out] + [self.stmt(h.get("body") if isinstance(h, dict) else None, st) for h in s.get("handlers") or []])
        for v in s.values():
            if isinstance(v, (dict, list)):
                st = self.ev(v, st)
        return st

    def decl(self, v, st):
        t = (v.get("type") or "").rstrip()
        init = v.get("init")
        pl = ("v", v.get("id"))
        if v.get("static"):
            return st
        if t.endswith("&"):
            # a reference: binding to a place counts as writing it unless const
            if init is not None:
                st = self.ev(init, st, "r" if t.startswith("const ") else "w")
            return st
        empty = init is None or init.get("k") == "ctor" and init.get("default") and init.get("defaulted") and not init.get("zero") and not init.get("list") and not init.get("args")
        if empty and self.T.raw(t):
            self.vars[pl] = v.get("name")
            return st - {pl}
        if init is not None:
            st = self.ev(init, st)
        return st

    def loop(self, s, st):
        k = s.get("k")
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        if k == "rangefor":
            v = s.get("var") or {}
            t = (v.get("type") or "").rstrip()
            st = self.ev(s.get("range"), st, "w" if t.endswith("&") and not t.startswith("const ") else "r")
            entry = st
            out = self.stmt(s.get("body"), st)
        else:
            if s.get("init"):
                st = self.stmt(s["init"], st) if s["init"].get("k") in ("decl", "expr", "block") else self.ev(s["init"], st)
            if k != "do":
                st = self.ev(s.get("cond"), st)
            entry = st
            out = self.stmt(s.get("body"), st)
            after = self.join([out] + self.cont)
            if after is not None:
                if s.get("inc") or s.get("step"):
                    after = self.ev(s.get("inc") or s.get("step"), after)
                if k == "do":
                    after = self.ev(s.get("cond"), after)
        once = self.join([out] + self.cont)
        brk = self.brk
        self.brk, self.cont = sb, sc
        if k == "do":
            return self.join([once] + brk)
        # what the body writes of arrays and records is taken as filled by the loop
        filled = frozenset(x for x in (once or frozenset()) - entry if self.many(x))
        forever = k in ("while", "for") and (s.get("cond") is None or s["cond"].get("k") == "lit" and s["cond"].get("v") in (True, 1))
        return self.join(([] if forever else [entry | filled]) + brk)

    def many(self, pl):
        if pl[0] == "f":
            r = self.T.p.records.get(self.f.get("cls") or "")
            t = next((x["type"] for x in (r or {}).get("fields", []) if pl[1].endswith("::" + x["name"])), "")
        else:
            t = self.vtypes.get(pl, "") if hasattr(self, "vtypes") else ""
        return not self.T.scalar(t) or "[" in t

    def switch(self, s, st):
        st = self.ev(s.get("cond"), st)
        sb = self.brk
        self.brk = []
        body = s.get("body") or {}
        outs, cur, dflt, labels = [], None, False, []

        def go(x, cur):
            nonlocal dflt
            while isinstance(x, dict) and x.get("k") in ("case", "default"):
                dflt = dflt or x.get("k") == "default"
                labels.append(x)
                cur = st if cur is None else cur & st
                x = x.get("sub")
            return self.stmt(x, cur) if isinstance(x, dict) and cur is not None else cur
        for x in body.get("c") or s.get("cases") or []:
            if isinstance(x, dict) and x.get("k") in ("case", "default"):
                cur = go(x, cur)
            else:
                cur = self.stmt(x, cur) if cur is not None else None
        total = dflt or s.get("enumerators") and len(labels) >= len(s["enumerators"])
        outs = [cur] + self.brk + ([] if total else [st])
        self.brk = sb
        return self.join(outs)

    def run(self, st=frozenset()):
        self.vtypes = {}
        stack = [self.f.get("body")]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
            elif isinstance(x, dict):
                if x.get("k") == "decl":
                    for v in x.get("vars") or []:
                        self.vtypes[("v", v.get("id"))] = v.get("type") or ""
                stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        out = self.stmt(self.f.get("body"), st)
        r = self.join([out] + self.exits)
        return r if r is not None else frozenset(("f", x) for x in self.fields)
