"""Inlined event trees.

`Builder(prog).root(fn)` turns a function of the type-checked program into a
structured tree of events (calls, writes, branches, loops, exits).  Calls to
repository functions with a body are inlined (context sensitively, recursion
cut), lambdas and functors included; every operand is resolved to a *term*, a
canonical name of the object it denotes (through references, parameters, local
copies, iterators, smart pointers, views and accessor functions), so that the
rules do not depend on how the source spells it.

Dataflow analyses run over the tree with `Flow`.
"""
import sys
from facts import AnalysisBroken, REPO

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- tree nodes
class Seq(list):
    __slots__ = ()


class Ev:
    """kind: call | write | new | delete | throw | decl | dtor"""
    __slots__ = ("kind", "name", "obj", "args", "res", "line", "file", "fn", "node", "chain", "extra")

    def __init__(self, kind, name, obj, args, res, line, ctx, node=None, extra=None):
        self.kind, self.name, self.obj, self.args, self.res = kind, name, obj, args, res
        self.line, self.file, self.fn = line, ctx.file, ctx.fname
        self.node = node
        self.chain = ctx
        self.extra = extra

    def where(self):
        return "%s:%s (in %s)" % (rel(self.file), self.line, self.fn)

    def __repr__(self):
        return "Ev(%s %s obj=%s args=%s @%s)" % (self.kind, self.name, show(self.obj), [show(a) for a in (self.args or [])], self.line)


class CallN:
    __slots__ = ("ev", "body", "fn", "ctx", "cond")

    def __init__(self, ev, body, fn, ctx):
        self.ev, self.body, self.fn, self.ctx = ev, body, fn, ctx


class If:
    __slots__ = ("cond", "then", "els", "line", "ctx")

    def __init__(self, cond, then, els, line, ctx):
        self.cond, self.then, self.els, self.line, self.ctx = cond, then, els, line, ctx


class Loop:
    """pre-tested (or post-tested when `post`) loop"""
    __slots__ = ("kind", "cond", "body", "inc", "range", "elem", "cover", "post", "line", "ctx", "var", "node", "rangeterm")

    def __init__(self, kind, line, ctx):
        self.kind, self.line, self.ctx = kind, line, ctx
        self.cond = None
        self.body = self.inc = Seq()
        self.range = self.elem = None
        self.cover = None
        self.post = False
        self.var = None
        self.node = None
        self.rangeterm = None

    def where(self):
        return "%s:%s (in %s)" % (rel(self.ctx.file), self.line, self.ctx.fname)


class Switch:
    __slots__ = ("term", "cases", "line", "ctx", "hasDefault", "node")


class Ret:
    __slots__ = ("val", "cond", "line", "ctx")

    def __init__(self, val, cond, line, ctx):
        self.val, self.cond, self.line, self.ctx = val, cond, line, ctx


class Brk:
    pass


class Cont:
    pass


class Thr:
    __slots__ = ("line", "ctx", "tt")

    def __init__(self, line, ctx, tt):
        self.line, self.ctx, self.tt = line, ctx, tt


class Try:
    __slots__ = ("body", "handlers")


# condition nodes
class CAtom:
    __slots__ = ("evs", "term", "line", "ctx")

    def __init__(self, evs, term, line, ctx):
        self.evs, self.term, self.line, self.ctx = evs, term, line, ctx


class CNot:
    def __init__(self, a):
        self.a = a


class CAnd:
    def __init__(self, a, b):
        self.a, self.b = a, b


class COr:
    def __init__(self, a, b):
        self.a, self.b = a, b


class CTern:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class CConst:
    def __init__(self, v):
        self.v = v


class CCall:
    def __init__(self, evs, call):
        self.evs, self.call = evs, call


def rel(f):
    return f[len(REPO) + 1:] if f and f.startswith(REPO + "/") else f


class Ctx:
    _n = 0
    __slots__ = ("fn", "fname", "file", "this", "env", "parent", "depth", "uid", "rets", "multi", "defs", "callline", "inl")

    def __init__(self, fn, this, parent, callline=None):
        Ctx._n += 1
        self.fn = fn
        self.fname = fn["name"]
        self.file = fn["file"]
        self.this = this
        self.env = {}
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.uid = Ctx._n
        self.rets = []
        self.defs = None
        self.callline = callline

    def stack(self):
        out, c = [], self
        while c:
            out.append(c.fn["id"])
            c = c.parent
        return out

    def path(self):
        out, c = [], self
        while c:
            out.append("%s (%s:%s)" % (c.fname, rel(c.file), c.fn["line"]))
            c = c.parent
        return " <- ".join(out)


def show(t):
    if t is None:
        return "-"
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "fld":
        return show(t[1]) + "." + t[2].split("::")[-1]
    if k == "elem":
        return "elem(" + show(t[1]) + ")"
    if k == "var":
        return "%s" % t[1]
    if k == "param":
        return t[1]
    if k == "this":
        return "this"
    if k == "lit":
        return str(t[1])
    if k == "call":
        return t[1].split("::")[-1] + "(" + ",".join(show(x) for x in t[2:] if x is not None) + ")"
    if k == "op":
        return "(" + (" %s " % t[1]).join(show(x) for x in t[2:]) + ")"
    if k == "idx":
        return show(t[1]) + "[" + show(t[2]) + "]"
    if k == "obj":
        return "obj:" + t[1].split("::")[-1]
    return k + "(" + ",".join(show(x) for x in t[1:]) + ")"


IDENT_CALLS = {
    "std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref",
    "std::__addressof", "std::to_address", "std::launder",
}
DEREF_METHODS = {"get", "operator*", "operator->", "value", "operator typename reference_wrapper<_Tp>::type &"}
SMART = ("std::unique_ptr", "std::shared_ptr", "std::optional", "std::reference_wrapper", "std::__uniq_ptr_impl")
ITER_HINT = ("iterator", "_Iterator", "_Iter", "Iterator")
BEGIN = {"begin", "cbegin", "rbegin", "crbegin"}
END = {"end", "cend", "rend", "crend"}
FINDERS = {"find", "lower_bound", "upper_bound", "insert", "emplace", "emplace_hint", "erase", "front", "back",
           "emplace_back", "emplace_front", "at", "try_emplace", "insert_or_assign", "top"}
STD_CONTAINERS = ("std::vector", "std::list", "std::deque", "std::map", "std::set", "std::unordered_map",
                  "std::unordered_set", "std::array", "std::priority_queue", "std::queue", "std::stack", "std::multimap",
                  "std::forward_list", "std::multiset", "std::__cxx11::list", "std::initializer_list", "std::span")


def std_container(t):
    t = t.replace("const ", "").strip()
    return t.startswith(STD_CONTAINERS)


def is_iter_type(t):
    t = t.replace("const ", "").strip()
    if std_container(t) or t.startswith(("std::unique_ptr", "std::function", "std::pair", "std::tuple")):
        return False
    head = t.split("<")[0]
    return any(h in head for h in ITER_HINT) or t.rstrip(" &").endswith("::iterator")


def own_iter_type(t):
    import re
    return not t.startswith("std::") and re.search(r"::\w*[iI]terator(<[^<>]*>)?$", t.replace("const ", "").rstrip(" &")) is not None


def array_extent(t):
    import re
    m = re.search(r"std::array<.*,\s*(\d+)>", t or "") or re.search(r"\[(\d+)\]\s*$", t or "")
    return int(m.group(1)) if m else None


def strip_term(t):
    """drop selection/copy wrappers"""
    while isinstance(t, tuple) and t[0] in ("sel", "copy"):
        t = t[1]
    return t


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def deep_strip(t):
    if not isinstance(t, tuple):
        return t
    if t[0] in ("sel", "copy"):
        return deep_strip(t[1])
    return tuple(deep_strip(x) for x in t)


class Builder:
    def __init__(self, prog, max_depth=14, no_inline=(), opaque=None):
        self.p = prog
        self.opaque = opaque or (lambda fn: False)
        self.max_depth = max_depth
        self.no_inline = set(no_inline)     # plain names
        self.contents = {}                  # local container term -> list of (term, Ev)
        self.inlined = set()
        self.idxloops = []
        self.nodes = 0

    # ------------------------------------------------------------------ roots
    def root(self, fn, this=("this",), args=None):
        if isinstance(fn, str):
            fn = self.p.fn(fn)
        ctx = Ctx(fn, this, None)
        for i, prm in enumerate(fn["params"]):
            ctx.env[prm["id"]] = (args[i] if args else ("param", prm["name"] or str(i)))
        body = self.fn_body(fn, ctx)
        return body, ctx

    def fn_body(self, fn, ctx):
        self.inlined.add(fn["id"])
        self.nodes += 1
        if self.nodes > 20000:
            raise AnalysisBroken("inlining budget exceeded at %s" % fn["name"])
        seq = Seq()
        for i in fn.get("inits", []) or []:
            if i.get("e") is None:
                continue
            if "field" in i:
                tgt = ("fld", ctx.this, self.fieldname(fn, i["field"]))
                v = self.expr(i["e"], ctx, seq)
                seq.append(Ev("write", "init", tgt, [v], None, i["l"], ctx, i))
            elif "base" in i or i.get("delegating"):
                # run the base constructor on the same object
                self.expr(i["e"], ctx, seq, target=ctx.this)
        ctx.defs = self.scan_defs(fn)
        for prm in fn["params"]:
            self.reassigned_param(prm, ctx, seq)
        self.stmt(fn["body"], ctx, seq)
        return seq

    def reassigned_param(self, prm, ctx, out):
        """a by-value parameter that the function assigns is a local variable"""
        multi = ctx.defs.get(prm["id"])
        t = prm.get("type") or ""
        if not multi or t.endswith("&"):
            return
        term = ctx.env.get(prm["id"])
        for m in multi:
            if m.get("k") in ("un", "call") and m.get("op") in ("++", "--") and (is_iter_type(t) or own_iter_type(t) or t.rstrip().endswith("*")) and \
                    isinstance(term, tuple) and term[0] in ("elem", "sel"):
                continue
            break
        else:
            return
        var = ("var", prm["name"] or "_", ctx.uid, prm["id"])
        ctx.env[prm["id"]] = var
        out.append(Ev("write", "=", var, [term], None, prm.get("l", ctx.fn.get("line", 0)), ctx, prm))

    def fieldname(self, fn, f):
        return (fn.get("clsPlain") or "") + "::" + f

    # variables reassigned in the function (id -> list of rhs exprs)
    def scan_defs(self, fn):
        d = fn.get("_defs")
        if d is not None:
            return d
        d = {}
        stack = [fn["body"]]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
                continue
            if not isinstance(x, dict):
                continue
            k = x.get("k")
            if k == "asg" and x["a"] and x["a"].get("k") == "var":
                d.setdefault(x["a"]["id"], []).append(x if x["op"] != "=" else x["b"])
            elif k == "un" and x["op"] in ("++", "--") and x["e"].get("k") == "var":
                d.setdefault(x["e"]["id"], []).append(x)
            elif k == "call" and x.get("op") in ("=", "++", "--", "+=", "-=", "*=", "/=") and (x.get("obj") or {}).get("k") == "var":
                d.setdefault(x["obj"]["id"], []).append(x["args"][0] if x["op"] == "=" and x["args"] else x)
            elif k == "un" and x["op"] == "&" and x["e"].get("k") == "var":
                d.setdefault(x["e"]["id"], []).append({"k": "addr", "l": x["l"], "t": ""})
            elif k == "call" and x.get("callee"):
                nm = x["callee"]["name"]
                if nm in ("std::swap", "std::exchange") or nm.endswith("::swap"):
                    for a in x["args"]:
                        if isinstance(a, dict) and a.get("k") == "var":
                            d.setdefault(a["id"], []).append({"k": "swap", "l": x["l"], "t": ""})
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        # lambdas inside: their bodies are separate functions; look them up
        for lam in self.lambdas_in(fn["body"]):
            lf = self.p.functions.get(lam)
            if lf and lf.get("body"):
                for k, v in self.scan_defs(lf).items():
                    d.setdefault(k, []).extend(v)
        fn["_defs"] = d
        return d

    def lambdas_in(self, n):
        out, stack = [], [n]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
            elif isinstance(x, dict):
                if x.get("k") == "lambda":
                    out.append(x["fn"])
                    out.extend(x.get("specs", []))
                stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        return out

    # ------------------------------------------------------------- statements
    def stmt(self, s, ctx, out):
        if s is None:
            return
        k = s["k"]
        if k == "block":
            for c in s["c"]:
                self.stmt(c, ctx, out)
        elif k == "decl":
            for v in s["vars"]:
                self.decl(v, ctx, out)
        elif k == "expr":
            self.expr(s["e"], ctx, out)
        elif k == "if":
            if s.get("init"):
                self.stmt(s["init"], ctx, out)
            if s.get("var"):
                self.decl(s["var"], ctx, out)
            c = self.cond(s["cond"], ctx)
            t, e = Seq(), Seq()
            self.stmt(s["then"], ctx, t)
            if s.get("else"):
                self.stmt(s["else"], ctx, e)
            out.append(If(c, t, e, s["l"], ctx))
        elif k in ("for", "while", "do"):
            self.loop(s, ctx, out)
        elif k == "rangefor":
            self.rangefor(s, ctx, out)
        elif k == "return":
            val, cnd = None, None
            if s.get("e") is not None:
                if ctx.fn["ret"] == "bool":
                    cnd = self.cond(s["e"], ctx)
                    val = self.cond_term(cnd)
                else:
                    val = self.expr(s["e"], ctx, out)
            ctx.rets.append(val)
            out.append(Ret(val, cnd, s["l"], ctx))
        elif k == "break":
            out.append(Brk())
        elif k == "continue":
            out.append(Cont())
        elif k == "switch":
            self.switch(s, ctx, out)
        elif k == "try":
            t = Try()
            t.body = Seq()
            self.stmt(s["body"], ctx, t.body)
            t.handlers = []
            for h in s["handlers"]:
                q = Seq()
                self.stmt(h, ctx, q)
                t.handlers.append(q)
            out.append(t)
        elif k in ("case", "default"):
            self.stmt(s["sub"], ctx, out)

    def switch(self, s, ctx, out):
        if s.get("init"):
            self.stmt(s["init"], ctx, out)
        n = Switch()
        n.term = self.expr(s["cond"], ctx, out)
        n.line, n.ctx, n.node = s["l"], ctx, s
        n.cases = []          # [ [values or None], Seq ]
        n.hasDefault = s["hasDefault"]
        cur = None
        body = s["body"]["c"] if s["body"] and s["body"]["k"] == "block" else [s["body"]]
        for st in body:
            vals = []
            while st is not None and st["k"] in ("case", "default"):
                if st["k"] == "case":
                    vals.append(self.expr(st["v"], ctx, Seq()))
                else:
                    vals.append(None)
                st = st["sub"]
            if vals:
                cur = [vals, Seq()]
                n.cases.append(cur)
            if cur is not None:
                self.stmt(st, ctx, cur[1])
        out.append(n)

    def decl(self, v, ctx, out):
        init = v.get("init")
        t = v["type"]
        isref = t.endswith("&")
        vid = v["id"]
        term = None
        var = ("var", v["name"] or "_", ctx.uid, vid)
        if init is not None:
            cls = t.replace("const ", "")
            if std_container(cls) and not isref and not cls.startswith("std::array"):
                # a local container: its own object
                val = self.expr(init, ctx, out, target=None)
                ctx.env[vid] = var
                if isinstance(val, tuple) and val[0] in ("obj",):
                    out.append(Ev("decl", v["name"], var, [val], None, v["l"], ctx, v))
                    for a in val[2:]:
                        if isinstance(a, tuple) and a[0] == "elemof":
                            self.contents.setdefault(var, []).append((a[1], None))
                    return
                # initialised from another container / function result
                if init.get("k") == "ctor" and init.get("copymove") == "copy":
                    ctx.env[vid] = ("copy", val)
                elif val is not None and init.get("k") != "ctor":
                    ctx.env[vid] = val
                else:
                    ctx.env[vid] = val if val is not None else var
                out.append(Ev("decl", v["name"], ctx.env[vid], [val], None, v["l"], ctx, v))
                return
            val = self.expr(init, ctx, out)
            term = val
        multi = (ctx.defs or {}).get(vid)
        if multi is None:
            # look in enclosing function contexts for lambda bodies
            pass
        if not isref and multi:
            # re-assigned: stays an opaque variable unless every definition
            # denotes the same element set
            ctx.env[vid] = term if term is not None else var
            same = term is not None
            for m in multi:
                if m.get("k") in ("un", "call") and (m.get("op") in ("++", "--")) and (is_iter_type(t) or own_iter_type(t) or t.rstrip().endswith("*") and isinstance(term, tuple) and term[0] in ("elem", "sel")):
                    continue
                if m.get("k") in ("un", "asg", "swap", "addr") or m.get("op") in ("++", "--", "+=", "-=", "*=", "/="):
                    same = False
                    break
                r = self.expr(m, ctx, Seq(), quiet=True)
                if deep_strip(r) != deep_strip(term):
                    same = False
                    break
            if not same:
                ctx.env[vid] = var
                if init is not None:
                    out.append(Ev("write", "=", var, [term], None, v["l"], ctx, v))
            return
        if term is None:
            term = var
        ctx.env[vid] = term
        for b in v.get("bindings", []) or []:
            ctx.env[b["id"]] = self.expr(b["e"], ctx, Seq(), quiet=True)
        out.append(Ev("decl", v["name"], var, [term], None, v["l"], ctx, v))

    # ------------------------------------------------------------------ loops
    def loop(self, s, ctx, out):
        k = s["k"]
        if k == "for" and s.get("init"):
            self.stmt(s["init"], ctx, out)
        L = Loop(k, s["l"], ctx)
        L.node = s
        if s.get("var"):
            pre = Seq()
            self.decl(s["var"], ctx, pre)
        L.post = (k == "do")
        body, inc = Seq(), Seq()
        if s.get("cond") is not None:
            L.cond = self.cond(s["cond"], ctx)
        ib = self.index_bound(s, ctx)
        if ib:
            self.idxloops.append([ib[0], ib[1], None])
        self.stmt(s["body"], ctx, body)
        if k == "for" and s.get("inc") is not None:
            self.expr(s["inc"], ctx, inc)
        L.body, L.inc = body, inc
        self.loop_shape(s, L, ctx)
        if ib:
            hit = self.idxloops.pop()[2]
            if hit is not None:
                L.rangeterm, L.elem, L.cover = hit[0], hit[1], "full"
        out.append(L)

    def index_bound(self, s, ctx):
        """(index variable term, bound term) of `for (i = 0; i < bound; ++i)`
        whose index is only changed by the increment"""
        c, inc = s.get("cond"), s.get("inc")
        if s["k"] != "for" or c is None or inc is None:
            return None
        if c.get("k") != "bin" or c["op"] not in ("<", "!=", ">"):
            return None
        a, b = c["a"], c["b"]
        if c["op"] == ">":
            a, b = b, a
        while a.get("k") == "cast":
            a = a["e"]
        if a.get("k") != "var":
            return None
        if not (inc.get("k") == "un" and inc["op"] == "++" and inc["e"].get("k") == "var" and inc["e"]["id"] == a["id"]):
            return None
        init = self.find_init(ctx.fn, a["id"])
        while isinstance(init, dict) and (init.get("k") == "cast" or init.get("k") == "init" and len(init["elems"]) == 1):
            init = init["e"] if init["k"] == "cast" else init["elems"][0]
        if init is None or self.expr(init, ctx, Seq(), quiet=True) not in (("lit", 0), ("zero",)):
            return None
        if len((ctx.defs or {}).get(a["id"], [])) > 1:
            return None
        return self.expr(a, ctx, Seq(), quiet=True), self.expr(b, ctx, Seq(), quiet=True)

    def index(self, a, i, typ, ctx):
        """term of a[i]: an element of a when i walks over all of a"""
        for ent in reversed(self.idxloops):
            if ent[0] == i:
                bound = ent[1]
                ok = False
                if isinstance(bound, tuple) and bound[0] == "call" and bound[1].split("::")[-1] in ("size", "ssize"):
                    x = bound[2] if bound[2] is not None else bound[3]
                    ok = deep_strip(x) == deep_strip(a)
                elif isinstance(bound, tuple) and bound[0] == "lit":
                    ok = array_extent(typ) == bound[1]
                if ok:
                    el = self.elem_of(a, ctx)
                    if ent[2] is None or ent[2][1] == el:
                        ent[2] = (a, el)
                    return el
        return ("idx", a, i)

    def loop_shape(self, s, L, ctx):
        """recognise iterator / index loops that visit every element"""
        c = s.get("cond")
        L.cover = None
        if c is None:
            return
        a = b = None
        if c.get("k") == "call" and c.get("op") in ("!=",):
            a = c.get("obj") or c["args"][0]
            b = c["args"][-1]
        elif c.get("k") == "bin" and c["op"] in ("!=", "<", ">"):
            a, b = c["a"], c["b"]
            if c["op"] == ">":
                a, b = b, a
        elif c.get("k") == "un" and c["op"] == "!" and c["e"].get("k") in ("call", "bin") and c["e"].get("op") == "==":
            e = c["e"]
            a = e.get("obj") or e.get("a") or e["args"][0]
            b = e["args"][-1] if e.get("k") == "call" else e["b"]
        if a is None:
            self.drain_shape(c, L, ctx)
            return

        def peel(x):
            while x is not None and x.get("k") in ("cast",) or (x.get("k") == "ctor" and len(x.get("args", [])) == 1):
                x = x["e"] if x["k"] == "cast" else x["args"][0]
            return x
        a, b = peel(a), peel(b)
        if is_iter_type(a.get("t", "")) or own_iter_type(a.get("t", "")) or a.get("t", "").endswith("*"):
            for it, e in ((a, b), (b, a)):
                if it.get("k") != "var":
                    continue
                et = self.expr(e, ctx, Seq(), quiet=True)
                itt = self.expr(it, ctx, Seq(), quiet=True)
                init = self.find_init(ctx.fn, it["id"])
                if init is None:
                    continue
                init = peel(init)
                isbegin = init.get("k") == "call" and init.get("callee", {}).get("name", "").split("::")[-1] in BEGIN \
                    or init.get("k") == "call" and init.get("callee", {}).get("name", "") in ("std::begin", "std::ranges::begin")
                isend = self.is_end(e, ctx)
                if not isend:
                    continue
                base = et[1] if isinstance(et, tuple) and et[0] in ("elem", "endof") else et
                L.rangeterm = base
                L.elem = itt
                L.var = it["id"]
                L.cover = "full" if isbegin else "partial"
                return
        # index loops
        ity = a.get("t", "")
        if a.get("k") == "var" and ity in ("unsigned int", "int", "unsigned long", "long", "unsigned short", "short", "unsigned char"):
            init = self.find_init(ctx.fn, a["id"])
            bt = self.expr(b, ctx, Seq(), quiet=True)
            if init is not None:
                it = self.expr(init, ctx, Seq(), quiet=True)
                L.var = a["id"]
                L.rangeterm = ("index", bt)
                L.elem = self.expr(a, ctx, Seq(), quiet=True)
                defs = [d for d in (ctx.defs or {}).get(a["id"], [])]
                once = len(defs) == 1 and defs[0].get("op") == "++"
                L.cover = "full" if it in (("lit", 0), ("zero",)) and once else "partial"

    def drain_shape(self, c, L, ctx):
        """while (!x.empty()) taking its elements out: only left once every
        element was taken out"""
        if not (c.get("k") == "un" and c["op"] == "!" and c["e"].get("k") == "call"):
            return
        e = c["e"]
        if (e.get("callee") or {}).get("name", "").split("::")[-1] not in ("empty", "isEmpty") or not e.get("obj"):
            return
        x = deep_strip(self.expr(e["obj"], ctx, Seq(), quiet=True))
        found = set()
        taken = False
        for ev, _ in events(L.body):
            short = ev.name.split("::")[-1]
            o = deep_strip(ev.obj)
            mine = isinstance(o, tuple) and (o == x or o[0] == "fld" and o[1] == x)
            if ev.kind == "call" and mine and short in ("front", "back", "top"):
                found.add(o)
            if ev.kind == "call" and mine and short in ("erase", "pop_front", "pop_back", "pop", "extract"):
                taken = True
            for a in ev.args or []:
                for y in subterms(deep_strip(a)):
                    if y[0] == "elem" and isinstance(y[1], tuple) and (y[1] == x or y[1][0] == "fld" and y[1][1] == x):
                        found.add(y[1])
        if len(found) == 1 and taken:
            r = found.pop()
            L.rangeterm, L.elem, L.cover = r, ("elem", r), "full"

    def is_end(self, e, ctx):
        k = e.get("k")
        if k == "call":
            n = e.get("callee", {}).get("name", "")
            if n.split("::")[-1] in END:
                return True
        if k == "var":
            init = self.find_init(ctx.fn, e["id"])
            if init is not None and init is not e:
                while init.get("k") in ("cast",) or (init.get("k") == "ctor" and len(init.get("args", [])) == 1):
                    init = init["e"] if init["k"] == "cast" else init["args"][0]
                return self.is_end(init, ctx)
        return False

    def find_init(self, fn, vid):
        m = fn.get("_inits")
        if m is None:
            m = {}
            stack = [fn["body"]]
            while stack:
                x = stack.pop()
                if isinstance(x, list):
                    stack.extend(x)
                elif isinstance(x, dict):
                    if "type" in x and "name" in x and "init" in x and "id" in x:
                        m[x["id"]] = x["init"]
                    stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
            fn["_inits"] = m
        return m.get(vid)

    def rangefor(self, s, ctx, out):
        L = Loop("rangefor", s["l"], ctx)
        L.node = s
        r = self.expr(s["range"], ctx, out)
        # iterating a by-value copy of a container
        if s["range"] and s["range"].get("k") == "ctor" and s["range"].get("copymove") == "copy" and std_container(s["range"].get("t", "")):
            r = ("copy", r)
        L.rangeterm = r
        L.elem = self.elem_of(r, ctx)
        L.cover = "full"
        ctx.env[s["var"]["id"]] = L.elem
        for b in s["var"].get("bindings", []) or []:
            ctx.env[b["id"]] = self.expr(b["e"], ctx, Seq(), quiet=True)
        if s.get("rangeVar"):
            ctx.env[s["rangeVar"]] = r
        ctx.env[s["var"]["id"]] = L.elem
        L.var = s["var"]["id"]
        body = Seq()
        vt = s["var"]["type"]
        body.append(Ev("decl", s["var"]["name"], ("var", s["var"]["name"], ctx.uid, s["var"]["id"]), [L.elem], None, s["l"], ctx, s["var"]))
        self.stmt(s["body"], ctx, body)
        L.body = body
        out.append(L)

    def elem_of(self, r, ctx):
        if not isinstance(r, tuple):
            return ("elem", r)
        if r[0] == "view":
            base, f = r[1], r[2]
            e = self.elem_of(base, ctx)
            return self.apply_deref(f, e, ctx)
        if r[0] == "copy":
            return self.elem_of(r[1], ctx)
        if r[0] == "var" and r in self.contents:
            ts = {t for t, _ in self.contents[r]}
            if len(ts) == 1:
                return ("sel", next(iter(ts)), r)
            if ts:
                return ("multi",) + tuple(sorted(ts, key=repr)) + (r,)
        return ("elem", r)

    def apply_deref(self, f, e, ctx):
        """apply a view's dereference functor to an element term"""
        if isinstance(f, tuple) and f[0] in ("obj", "call", "lambda", "var"):
            fid = None
            if f[0] == "lambda":
                return self.call_value(f, [e], ctx, Seq(), 0)
            cls = f[1] if f[0] == "obj" else None
            if cls and cls.endswith("DoubleDereference"):
                return e
            if cls:
                for fn in self.p.functions.values():
                    if fn.get("cls") == cls and fn["name"].endswith("operator()") and fn.get("body"):
                        c2 = Ctx(fn, f, ctx)
                        c2.env[fn["params"][0]["id"]] = e
                        self.fn_body(fn, c2)
                        if c2.rets:
                            return c2.rets[0]
        return ("deref", f, e)

    # ------------------------------------------------------------- conditions
    def cond(self, e, ctx):
        if e is None:
            return CConst(True)
        k = e["k"]
        if k == "lit":
            return CConst(bool(e["v"]))
        if k == "un" and e["op"] == "!":
            return CNot(self.cond(e["e"], ctx))
        if k == "bin" and e["op"] == "&&":
            return CAnd(self.cond(e["a"], ctx), self.cond(e["b"], ctx))
        if k == "bin" and e["op"] == "||":
            return COr(self.cond(e["a"], ctx), self.cond(e["b"], ctx))
        if k == "cond":
            return CTern(self.cond(e["c"], ctx), self.cond(e["a"], ctx), self.cond(e["b"], ctx))
        if k == "cast" and e["t"] == "bool" and not e.get("explicit"):
            # pointer / integer to bool
            evs = Seq()
            t = self.expr(e["e"], ctx, evs)
            if e["ck"] == "PointerToBoolean":
                return CNot(CAtom(evs, ("op", "==", t, ("null",)), e["l"], ctx))
            return CNot(CAtom(evs, ("op", "==", t, ("lit", 0)), e["l"], ctx))
        evs = Seq()
        if k == "call" and e["t"] == "bool":
            t = self.expr(e, ctx, evs)
            if evs and isinstance(evs[-1], CallN) and evs[-1].ev.node is e:
                c = evs.pop()
                return CCall(evs, c)
            return self.atomize(evs, t, e, ctx)
        t = self.expr(e, ctx, evs)
        return self.atomize(evs, t, e, ctx)

    def atomize(self, evs, t, e, ctx):
        """canonicalise comparison terms"""
        neg, t = canon_cmp(t)
        a = CAtom(evs, t, e["l"], ctx)
        return CNot(a) if neg else a

    def cond_term(self, c):
        if isinstance(c, CConst):
            return ("lit", c.v)
        if isinstance(c, CAtom):
            return c.term
        if isinstance(c, CNot):
            return ("not", self.cond_term(c.a))
        if isinstance(c, CAnd):
            return ("op", "&&", self.cond_term(c.a), self.cond_term(c.b))
        if isinstance(c, COr):
            return ("op", "||", self.cond_term(c.a), self.cond_term(c.b))
        if isinstance(c, CTern):
            return ("op", "?:", self.cond_term(c.c), self.cond_term(c.a), self.cond_term(c.b))
        if isinstance(c, CCall):
            return c.call.ev.res
        return None

    # ------------------------------------------------------------ expressions
    def expr(self, e, ctx, out, target=None, quiet=False):
        if e is None:
            return None
        k = e["k"]
        if k == "lit":
            return ("lit", e["v"])
        if k == "null":
            return ("null",)
        if k == "zero":
            return ("zero",)
        if k == "str":
            return ("str",)
        if k == "this":
            return ctx.this
        if k == "var":
            if "global" in e and e["id"] not in ctx.env:
                if "cv" in e:
                    return ("lit", e["cv"])
                return ("global", e["global"])
            c = ctx
            while c is not None:
                if e["id"] in c.env:
                    return c.env[e["id"]]
                c = c.parent
            return ("var", e["name"], 0, e["id"])
        if k == "binding":
            return self.expr(e["binding"], ctx, out) if e.get("binding") else None
        if k == "mem":
            b = self.expr(e["base"], ctx, out)
            return self.member(b, e)
        if k == "cast":
            t = self.expr(e["e"], ctx, out)
            return t
        if k == "un":
            op = e["op"]
            if op == "!":
                c = self.cond(e, ctx)
                self.cond_events(c, out, e, ctx)
                return self.cond_term(c)
            t = self.expr(e["e"], ctx, out)
            if op in ("*", "&", "+", "__extension__"):
                return t
            if op in ("++", "--"):
                out.append(Ev("write", op, t, [t], None, e["l"], ctx, e))
                return t
            if op == "-":
                if isinstance(t, tuple) and t[0] == "lit" and not isinstance(t[1], bool):
                    return ("lit", -t[1])
                return ("op", "neg", t)
            return ("op", op, t)
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                c = self.cond(e, ctx)
                self.cond_events(c, out, e, ctx)
                return self.cond_term(c)
            a = self.expr(e["a"], ctx, out)
            b = self.expr(e["b"], ctx, out)
            if op == ",":
                return b
            t = ("op", op, a, b)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                neg, t = canon_cmp(t)
                return ("not", t) if neg else t
            return t
        if k == "asg":
            b = self.expr(e["b"], ctx, out)
            a = self.expr(e["a"], ctx, out)
            if quiet:
                return b
            out.append(Ev("write", e["op"], a, [b], None, e["l"], ctx, e))
            return a
        if k == "cond":
            c = self.cond(e["c"], ctx)
            x, y = Seq(), Seq()
            a = self.expr(e["a"], ctx, x)
            b = self.expr(e["b"], ctx, y)
            out.append(If(c, x, y, e["l"], ctx))
            if a == b:
                return a
            return ("op", "?:", self.cond_term(c), a, b)
        if k == "idx":
            a = self.expr(e["a"], ctx, out)
            i = self.expr(e["i"], ctx, out)
            return self.index(a, i, e["a"].get("t", ""), ctx)
        if k == "lambda":
            return ("lambda", e["fn"], ctx.uid, LamRef(e, ctx))
        if k == "fnref":
            return ("fn", e["callee"]["fn"])
        if k == "throw":
            out.append(Thr(e["l"], ctx, e.get("tt")))
            return None
        if k == "new":
            ps = [self.expr(x, ctx, out) for x in e.get("placement", [])]
            iv = self.expr(e["init"], ctx, out) if e.get("init") else None
            r = ("new", e["nt"], ctx.uid, e["l"])
            out.append(Ev("new", e["nt"], None, [iv] + ps, r, e["l"], ctx, e))
            return r
        if k == "delete":
            t = self.expr(e["e"], ctx, out)
            out.append(Ev("delete", "delete", t, [], None, e["l"], ctx, e))
            return None
        if k == "init":
            vals = [self.expr(x, ctx, out) for x in e["elems"]]
            rec = self.p.records.get(e["t"])
            if rec is not None:
                flds = tuple((rec["plain"] + "::" + f["name"], v) for f, v in zip(rec["fields"], vals))
                return ("obj", e["t"], ("fields",) + flds)
            if std_container(e["t"]):
                vs = vals
                if len(vals) == 1 and isinstance(vals[0], tuple) and vals[0][0] == "initlist":
                    vs = list(vals[0][1:])
                return ("initlist",) + tuple(vs)
            if len(vals) == 1 and rec is None and not e["t"].endswith("]"):
                return vals[0]
            return ("initlist",) + tuple(vals)
        if k == "ctor":
            return self.ctor(e, ctx, out, target)
        if k == "call":
            return self.call(e, ctx, out)
        if k == "arrcopy":
            return self.expr(e["e"], ctx, out)
        for c in e.get("c", []) or []:
            self.expr(c, ctx, out)
        return ("other", e.get("cls"))

    def cond_events(self, c, out, e, ctx):
        out.append(If(c, Seq(), Seq(), e["l"], ctx))

    def member(self, b, e):
        f = e["field"]
        bb = strip_term(b)
        if isinstance(bb, tuple) and bb[0] == "obj" and len(bb) > 2 and isinstance(bb[2], tuple) and bb[2] and bb[2][0] == "fields":
            for n, v in bb[2][1:]:
                if n == f and v is not None:
                    return v
        return ("fld", b, f)

    def ctor(self, e, ctx, out, target):
        cal = e["callee"]
        args = e["args"]
        if e.get("copymove") and len(args) >= 1:
            return self.expr(args[0], ctx, out)
        cls = cal["cls"]
        vals = [self.expr(a, ctx, out) for a in args]
        fn = self.p.functions.get(cal["fn"])
        # iterator / smart pointer conversions keep identity
        if cls.startswith(SMART) or is_iter_type(cls) or cls.startswith("std::__detail::_Node"):
            if len(vals) >= 1:
                return vals[0]
            return ("null",)
        if fn is not None and fn.get("body") and self.can_inline(fn, ctx) and not cls.startswith("std::"):
            this = target if target is not None else ("obj", cls, ctx.uid, e["l"])
            ev = Ev("call", fn["name"], this, vals, this, e["l"], ctx, e)
            c2 = Ctx(fn, this, ctx, e["l"])
            for prm, v in zip(fn["params"], vals):
                c2.env[prm["id"]] = v
            body = self.fn_body(fn, c2)
            out.append(CallN(ev, body, fn, c2))
            # expose trivially copied constructor arguments as fields
            flds = []
            for n in body:
                if isinstance(n, Ev) and n.kind == "write" and n.name == "init" and n.obj[1] == this:
                    flds.append((n.obj[2], n.args[0]))
            if target is None and flds and not any(n in self.p.mutated_fields for n, _ in flds):
                return ("obj", cls, ("fields",) + tuple(flds))
            return this
        r = ("obj", cls) + tuple(vals)
        out.append(Ev("call", cal["name"], target, vals, r, e["l"], ctx, e))
        return r

    def can_inline(self, fn, ctx):
        if fn["name"] in self.no_inline or not fn.get("body") or self.opaque(fn):
            return False
        if ctx.depth >= self.max_depth:
            return False
        if fn["id"] in ctx.stack():
            return False
        return True

    def call(self, e, ctx, out):
        cal = e.get("callee")
        if cal is None:
            ce = e.get("calleeExpr")
            f = self.expr(ce, ctx, out) if ce else None
            args = [self.expr(a, ctx, out) for a in e["args"]]
            if isinstance(f, tuple) and f[0] in ("lambda", "fn"):
                return self.call_value(f, args, ctx, out, e["l"], e)
            r = ("call", "?", f) + tuple(args)
            out.append(Ev("call", "?", f, args, r, e["l"], ctx, e))
            return r
        name = cal["name"]
        short = name.split("::")[-1]
        obj = self.expr(e["obj"], ctx, out) if e.get("obj") is not None else None
        args = [self.expr(a, ctx, out) for a in e["args"]]

        if name in IDENT_CALLS and args:
            return args[0]
        if name == "std::get" and len(args) == 1:
            t0 = (e["args"][0].get("t") or "").replace("const ", "")
            i = (cal.get("targs") or "").split(";")[0].strip()
            i = "".join(c for c in i if c.isdigit())
            if t0.startswith("std::pair<") and i in ("0", "1"):
                return ("fld", args[0], "std::pair::" + ("second" if i == "1" else "first"))
            if i and t0.startswith("std::array<"):
                return ("idx", args[0], ("lit", int(i)))
        if name == "simu::makeView":
            if len(args) == 1:
                return args[0]
            t2 = e["args"][-1].get("t", "")
            a0 = args[0]
            base = a0[1] if isinstance(a0, tuple) and a0[0] == "elem" else a0
            if len(args) == 2:
                if e["args"][0].get("t") == t2 or t2.endswith("*") and e["args"][0].get("t", "").endswith("*"):
                    return base
                return ("view", a0, args[1])
            return ("view", base, args[2])
        fn = self.p.functions.get(cal["fn"])
        cls = cal.get("cls", "")
        inrepo = fn is not None and not cls.startswith("std::") or (fn is not None and fn["file"].startswith((REPO, "/verif")))

        # operator() on a known lambda
        if short == "operator()" and isinstance(obj, tuple) and strip_term(obj)[0] == "lambda":
            return self.call_value(strip_term(obj), args, ctx, out, e["l"], e, fid=cal["fn"])

        if inrepo and fn.get("body"):
            virt = cal.get("virtual") and not e.get("qualified")
            overr = self.p.all_overriders(cal["fn"]) if virt else []
            if (not virt or not overr) and self.can_inline(fn, ctx):
                return self.inline(fn, obj, args, ctx, out, e)
        if not inrepo or not fn.get("body"):
            r = self.std_call(name, short, cls, obj, args, e, ctx, out, cal)
            if r is not None:
                return r[0]
        r = ("call", name, obj) + tuple(args)
        if inrepo:
            own = self.own_iterator(short, cls, obj, args, e)
            if own is not None:
                r = own
                if e.get("op") in ("++", "--"):
                    out.append(Ev("write", e["op"], r, [r], None, e["l"], ctx, e))
                    return r
                if e.get("op") in ("*", "->"):
                    return r
            self.callbacks(name, obj, args, e, ctx, out)
        out.append(Ev("call", name, obj, args, r, e["l"], ctx, e, extra=cal))
        return r

    @staticmethod
    def own_iterator(short, cls, obj, args, e):
        """iterators of the repository's own containers, when the container
        itself is not looked into"""
        if obj is None:
            return None
        if short in BEGIN or short in END:
            return ("elem", obj) if not args and own_iter_type(e.get("t", "")) else None
        if own_iter_type(cls) and e.get("op") in ("*", "->", "++", "--"):
            return obj
        return None

    def callbacks(self, name, obj, args, e, ctx, out):
        """a callable handed to a function that is not inlined: it may be
        invoked any number of times on elements of the receiver"""
        for a in args:
            s = strip_term(a)
            if not isinstance(s, tuple):
                continue
            fn = None
            if s[0] == "lambda":
                fn = self.p.functions.get(s[1])
            elif s[0] == "obj" and isinstance(s[1], str):
                c = [f for f in self.p.functions.values() if f.get("cls") == s[1] and f["name"].endswith("operator()") and f.get("body")]
                fn = c[0] if c else None
            if fn is None:
                continue
            L = Loop("callback:" + name.split("::")[-1], e["l"], ctx)
            L.rangeterm, L.elem, L.cover = obj, ("elem", obj), "full"
            els = [("elem", obj) if i == 0 else ("elem%d" % (i + 1), obj) for i in range(len(fn["params"]))]
            body = Seq()
            if s[0] == "lambda":
                self.call_value(s, els, ctx, body, e["l"])
            else:
                self.inline(fn, s, els, ctx, body, e)
            L.body = body
            out.append(L)

    @staticmethod
    def result(fn, c2, void):
        rets = []
        for r in c2.rets:
            if r is not None and r not in rets:
                rets.append(r)
        if len(rets) == 1 and (len(c2.rets) == 1 or fn["ret"] != "bool"):
            return rets[0]
        if rets and fn["ret"] == "bool":
            # a truth value decided by the path taken through the call
            return ("bret", fn["name"], c2.uid)
        if rets:
            ds = {deep_strip(r) for r in rets}
            return rets[0] if len(ds) == 1 else ("multi",) + tuple(rets)
        return void

    def inline(self, fn, obj, args, ctx, out, e):
        c2 = Ctx(fn, obj, ctx, e["l"])
        for prm, v in zip(fn["params"], args):
            c2.env[prm["id"]] = v
        ev = Ev("call", fn["name"], obj, args, None, e["l"], ctx, e)
        body = self.fn_body(fn, c2)
        res = self.result(fn, c2, ("void", fn["name"], c2.uid))
        ev.res = res
        out.append(CallN(ev, body, fn, c2))
        return res

    def call_value(self, f, args, ctx, out, line, e=None, fid=None):
        if f[0] == "fn":
            fn = self.p.functions.get(f[1])
            if fn and self.can_inline(fn, ctx):
                return self.inline(fn, None, args, ctx, out, e or {"l": line})
            r = ("call", f[1], None) + tuple(args)
            out.append(Ev("call", fn["name"] if fn else f[1], None, args, r, line, ctx, e))
            return r
        lam = f[3]
        fn = self.p.functions.get(fid) if fid else None
        if fn is None or not fn.get("body"):
            fn = self.p.functions.get(f[1])
        if fn is None or not fn.get("body"):
            for s in lam.e.get("specs", []):
                if self.p.functions.get(s, {}).get("body"):
                    fn = self.p.functions[s]
                    break
        if fn is None or not fn.get("body") or not self.can_inline(fn, ctx):
            r = ("call", "lambda", None) + tuple(args)
            out.append(Ev("call", "lambda", None, args, r, line, ctx, e))
            return r
        # captured variables: visible through a context chained on the defining one
        c2 = Ctx(fn, lam.ctx.this, ctx, line)
        c2.env.update(self.flat_env(lam.ctx))
        for cap in lam.e.get("caps", []):
            if cap.get("init") is not None:
                c2.env[cap["id"]] = self.expr(cap["init"], lam.ctx, Seq())
        for prm, v in zip(fn["params"], args):
            c2.env[prm["id"]] = v
        ev = Ev("call", "lambda", None, args, None, line, ctx, e)
        body = self.fn_body(fn, c2)
        res = self.result(fn, c2, None)
        ev.res = res
        out.append(CallN(ev, body, fn, c2))
        return res

    def flat_env(self, ctx):
        chain = []
        c = ctx
        while c is not None:
            chain.append(c)
            c = c.parent
        env = {}
        for c in reversed(chain):
            env.update(c.env)
        return env

    # --------------------------------------------------------- library model
    def std_call(self, name, short, cls, obj, args, e, ctx, out, cal):
        if short in DEREF_METHODS and (cls.startswith(SMART) or is_iter_type(cls) or "_Node" in cls or "__normal_iterator" in cls):
            return (obj,) if not (obj is None and args) else (args[0],)
        if short in ("operator bool", "has_value") and cls.startswith(SMART):
            return (("not", ("op", "==", obj, ("null",))),)
        opn = e.get("op")
        if opn in ("++", "--"):
            t = obj if obj is not None else (args[0] if args else None)
            out.append(Ev("write", opn, t, [t], None, e["l"], ctx, e))
            return (t,)
        if opn in ("==", "!=", "<", ">", "<=", ">=") and (obj is not None and args or len(args) == 2):
            a = obj if obj is not None else args[0]
            b = args[-1]
            neg, t = canon_cmp(("op", opn, a, b))
            return (("not", t) if neg else t,)
        if opn == "=":
            out.append(Ev("write", "=", obj, args, None, e["l"], ctx, e))
            return (obj,)
        if opn == "[]":
            idx = args[0]
            out.append(Ev("call", name, obj, args, ("idx", obj, idx), e["l"], ctx, e))
            if isinstance(obj, tuple) and obj[0] == "initlist" and isinstance(idx, tuple) and idx[0] == "lit" and isinstance(idx[1], int) and idx[1] + 1 < len(obj):
                return (obj[idx[1] + 1],)
            if "map" in cls:
                return (("elem", obj),)
            return (self.index(obj, idx, cls, ctx),)
        if opn in ("*", "->") and obj is not None:
            return (obj,)
        if cls.startswith(STD_CONTAINERS) or cls.startswith("std::ranges") or cls.startswith("std::_"):
            if short in BEGIN or short == "data":
                return (("elem", obj),)
            if short in END:
                return (("elem", obj),)
            if short in FINDERS:
                r = ("elem", obj)
                out.append(Ev("call", name, obj, args, r, e["l"], ctx, e, extra=cal))
                self.note_insert(short, obj, args, out[-1])
                return (r,)
            if short in ("push_back", "push_front", "push"):
                out.append(Ev("call", name, obj, args, None, e["l"], ctx, e, extra=cal))
                self.note_insert(short, obj, args, out[-1])
                return (None,)
        if name in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::ranges::begin", "std::ranges::end") and args:
            return (("elem", args[0]),)
        if name in ("std::next", "std::prev", "std::advance") and args:
            return (args[0],)
        if name == "std::get" and args:
            return (("fld", args[0], "std::get<%s>" % cal.get("targs", "")),)
        # algorithms over a range with a callable: loop applying the callable
        lam = None
        for a in args:
            s = strip_term(a)
            if isinstance(s, tuple) and s[0] == "lambda":
                lam = s
        if lam is not None and name.startswith("std::"):
            base = obj if obj is not None else args[0]
            if isinstance(base, tuple) and base[0] == "elem":
                rng = base[1]
                el = base
            else:
                rng = base
                el = self.elem_of(base, ctx)
            L = Loop("algo:" + short, e["l"], ctx)
            L.rangeterm, L.elem, L.cover = rng, el, "full"
            body = Seq()
            nparams = len((self.p.functions.get(lam[1]) or {}).get("params", [0]))
            res = self.call_value(lam, [el] * max(1, nparams), ctx, body, e["l"])
            if short in ("erase_if", "remove_if"):
                # predicate true -> the element is erased
                call = body.pop() if body and isinstance(body[-1], CallN) else None
                er = Seq([Ev("call", "std::erase", rng, [el], None, e["l"], ctx, e)])
                c = CCall(body, call) if call is not None else CAtom(body, res, e["l"], ctx)
                body = Seq([If(c, er, Seq(), e["l"], ctx)])
            elif short in ("any_of", "all_of", "none_of"):
                call = body.pop() if body and isinstance(body[-1], CallN) else None
                c = CCall(body, call) if call is not None else CAtom(body, res, e["l"], ctx)
                hit, end = {"any_of": (True, False), "all_of": (False, True), "none_of": (False, True)}[short]
                stop = Seq([Ret(None, CConst(hit), e["l"], ctx)])
                if short == "all_of":
                    c = CNot(c)
                L.body = Seq([If(c, stop, Seq(), e["l"], ctx)])
                Ctx._n += 1
                r = ("bret", name, Ctx._n)
                ev = Ev("call", name, None, args, r, e["l"], ctx, e, extra=cal)
                out.append(CallN(ev, Seq([L, Ret(None, CConst(end), e["l"], ctx)]), self.p.functions.get(lam[1]) or ctx.fn, ctx))
                return (r,)
            elif short in ("find_if", "find_if_not"):
                call = body.pop() if body and isinstance(body[-1], CallN) else None
                c = CCall(body, call) if call is not None else CAtom(body, res, e["l"], ctx)
                stop = Seq([Brk()])
                if short == "find_if_not":
                    body = Seq([If(c, Seq(), stop, e["l"], ctx)])
                else:
                    body = Seq([If(c, stop, Seq(), e["l"], ctx)])
                L.cover = "partial"
            L.body = body
            out.append(L)
            r = ("call", name, None) + tuple(a for a in args if strip_term(a) is not lam)
            if short == "find_if":
                r = el
            out.append(Ev("call", name, None, args, r, e["l"], ctx, e, extra=cal))
            return (r,)
        if name in ("std::find", "std::ranges::find") and args:
            out.append(Ev("call", name, None, args, args[0], e["l"], ctx, e, extra=cal))
            return (args[0] if isinstance(args[0], tuple) and args[0][0] == "elem" else ("elem", args[0]),)
        if name in ("std::remove", "std::remove_if") and args:
            out.append(Ev("call", name, None, args, ("removed", args[0], args[-1]), e["l"], ctx, e, extra=cal))
            return (("removed", args[0], args[-1]),)
        return None

    def note_insert(self, short, obj, args, ev):
        if short in ("emplace_back", "push_back", "push", "insert", "emplace", "push_front", "emplace_front"):
            o = obj
            if isinstance(o, tuple) and o[0] == "var" and args:
                self.contents.setdefault(o, []).append((strip_term(args[-1]) if False else args[-1], ev))


class LamRef:
    """opaque payload of a lambda term (identity compared)"""
    __slots__ = ("e", "ctx")

    def __init__(self, e, ctx):
        self.e, self.ctx = e, ctx

    def __repr__(self):
        return "lam@%s" % self.e["l"]


def canon_cmp(t):
    """-> (negated, term) with only == and < (and bool-valued terms)"""
    neg = False
    while isinstance(t, tuple) and t[0] == "not":
        neg = not neg
        t = t[1]
    if isinstance(t, tuple) and t[0] == "op" and len(t) == 4:
        op, a, b = t[1], t[2], t[3]
        if op == "!=":
            neg, op = not neg, "=="
        elif op == ">":
            op, a, b = "<", b, a
        elif op == "<=":
            neg, op, a, b = not neg, "<", b, a
        elif op == ">=":
            neg, op = not neg, "<"
        if op == "==":
            if a in (("null",), ("zero",)) or (isinstance(a, tuple) and a[0] == "lit" and not (isinstance(b, tuple) and b[0] == "lit")):
                a, b = b, a
            if b in (("lit", True), ("lit", False)) and isinstance(b[1], bool):
                n2, t2 = canon_cmp(a)
                return (neg != n2) != (b[1] is False), t2
            if b == ("zero",):
                b = ("null",)
            t = ("op", "==", a, b)
        else:
            t = ("op", op, a, b)
    return neg, t


# ------------------------------------------------------------------ dataflow
class Flow:
    """Forward powerset dataflow: states are hashable; subclasses override
    event(ev, st) -> iterable of states and assume(term, truth, st, atom) ->
    state or None.  enter/leave hooks see inlined calls and loops."""

    max_states = 20000

    def event(self, ev, st):
        return (st,)

    def assume(self, term, truth, st, atom):
        return st

    def enter_call(self, c, st):
        return (st,)

    def leave_call(self, c, st):
        return (st,)

    def loop_iter(self, L, st):
        """start of an iteration"""
        return (st,)

    def loop_enter(self, L, st):
        return (st,)

    def loop_exit(self, L, st):
        return (st,)

    def fork(self, st):
        return st

    # --
    def run(self, tree, init):
        r = self.seq(tree, frozenset([init]) if not isinstance(init, frozenset) else init)
        return r

    def bind(self, S, f):
        out = set()
        for s in S:
            out.update(f(s))
        return frozenset(out)

    def seq(self, tree, S):
        """-> dict exit -> stateset ; exits: n(ormal) b c r rt rf t"""
        res = {}
        for n in tree:
            if not S:
                break
            r = self.node(n, S)
            S = r.pop("n", frozenset())
            for k, v in r.items():
                if v:
                    res[k] = res.get(k, frozenset()) | v
            if len(S) > self.max_states:
                raise AnalysisBroken("state explosion")
        if S:
            res["n"] = S
        return res

    def node(self, n, S):
        if isinstance(n, Ev):
            return {"n": self.bind(S, lambda s: self.event(n, s))}
        if isinstance(n, CallN):
            S = self.bind(S, lambda s: self.enter_call(n, s))
            r = self.seq(n.body, S)
            m = frozenset()
            for k in ("n", "r", "rt", "rf"):
                m |= r.get(k, frozenset())
            m = self.bind(m, lambda s: self.event(n.ev, s))
            m = self.bind(m, lambda s: self.leave_call(n, s))
            out = {"n": m}
            if r.get("t"):
                out["t"] = r["t"]
            return out
        if isinstance(n, If):
            T, F, X = self.cond(n.cond, S)
            a = self.seq(n.then, T) if T else {}
            b = self.seq(n.els, F) if F else {}
            return merge_exits(merge_exits(a, b), X)
        if isinstance(n, Loop):
            return self.loop(n, S)
        if isinstance(n, Switch):
            return self.switch(n, S)
        if isinstance(n, Ret):
            if n.cond is not None:
                T, F, X = self.cond(n.cond, S)
                return merge_exits({"rt": T, "rf": F}, X)
            return {"r": S}
        if isinstance(n, Brk):
            return {"b": S}
        if isinstance(n, Cont):
            return {"c": S}
        if isinstance(n, Thr):
            return {"t": self.bind(S, lambda s: self.throw(n, s))}
        if isinstance(n, Try):
            r = self.seq(n.body, S)
            # handlers may start from any state thrown, or (conservatively) S
            t = r.pop("t", frozenset()) | S
            for h in n.handlers:
                r = merge_exits(r, self.seq(h, t))
            return r
        return {"n": S}

    def throw(self, n, st):
        return (st,)

    def switch(self, n, S):
        res = {}
        fall = frozenset()
        brk = frozenset()
        matched = []
        for vals, body in n.cases:
            ent = set()
            for s in S:
                for v in vals:
                    if v is None:
                        s2 = s
                        for mv in matched_all(n):
                            if s2 is None:
                                break
                            s2 = self.assume(("op", "==", n.term, mv), False, s2, n)
                        if s2 is not None:
                            ent.add(s2)
                    else:
                        s2 = self.assume(("op", "==", n.term, v), True, s, n)
                        if s2 is not None:
                            ent.add(s2)
            r = self.seq(body, frozenset(ent) | fall)
            fall = r.pop("n", frozenset())
            brk |= r.pop("b", frozenset())
            res = merge_exits(res, r)
        out = fall | brk
        if not n.hasDefault:
            ent = set()
            for s in S:
                s2 = s
                for mv in matched_all(n):
                    if s2 is None:
                        break
                    s2 = self.assume(("op", "==", n.term, mv), False, s2, n)
                if s2 is not None:
                    ent.add(s2)
            out |= frozenset(ent)
        return merge_exits(res, {"n": out})

    def loop(self, L, S):
        exits = {}
        S = self.bind(S, lambda s: self.loop_enter(L, s))
        seen = frozenset()
        work = S
        after = frozenset()
        first = True
        brk = frozenset()
        while work - seen:
            new = work - seen
            seen |= new
            if L.post and first:
                T, F, X = new, frozenset(), {}
                first = False
            elif L.kind == "rangefor" or L.kind.startswith(("algo", "callback")):
                T, F, X = new, new, {}
            elif L.cond is not None:
                T, F, X = self.cond(L.cond, new)
            else:
                T, F, X = new, frozenset(), {}
            exits = merge_exits(exits, X)
            after |= F
            T = self.bind(T, lambda s: self.loop_iter(L, s))
            r = self.seq(L.body, T)
            nxt = r.pop("n", frozenset()) | r.pop("c", frozenset())
            brk |= r.pop("b", frozenset())
            if nxt and L.inc:
                r2 = self.seq(L.inc, nxt)
                nxt = r2.pop("n", frozenset())
                exits = merge_exits(exits, r2)
            nxt = self.bind(nxt, lambda s: self.iter_end(L, s))
            exits = merge_exits(exits, r)
            work = seen | nxt
            if len(seen) > self.max_states:
                raise AnalysisBroken("state explosion in loop at %s" % L.where())
        brk = self.bind(brk, lambda s: self.loop_break(L, s))
        out = self.bind(after | brk, lambda s: self.loop_exit(L, s))
        return merge_exits(exits, {"n": out})

    def iter_end(self, L, st):
        return (st,)

    def loop_break(self, L, st):
        return (st,)

    def cond(self, c, S):
        """-> (true states, false states, abnormal exits)"""
        if isinstance(c, CConst):
            return (S, frozenset(), {}) if c.v else (frozenset(), S, {})
        if isinstance(c, CNot):
            T, F, X = self.cond(c.a, S)
            return F, T, X
        if isinstance(c, CAnd):
            T, F, X = self.cond(c.a, S)
            T2, F2, X2 = self.cond(c.b, T) if T else (frozenset(), frozenset(), {})
            return T2, F | F2, merge_exits(X, X2)
        if isinstance(c, COr):
            T, F, X = self.cond(c.a, S)
            T2, F2, X2 = self.cond(c.b, F) if F else (frozenset(), frozenset(), {})
            return T | T2, F2, merge_exits(X, X2)
        if isinstance(c, CTern):
            T, F, X = self.cond(c.c, S)
            T1, F1, X1 = self.cond(c.a, T) if T else (frozenset(), frozenset(), {})
            T2, F2, X2 = self.cond(c.b, F) if F else (frozenset(), frozenset(), {})
            return T1 | T2, F1 | F2, merge_exits(merge_exits(X, X1), X2)
        if isinstance(c, CAtom):
            r = self.seq(c.evs, S)
            S = r.pop("n", frozenset())
            T, F = set(), set()
            for s in S:
                a = self.assume_deep(c.term, True, s, c)
                if a is not None:
                    T.add(a)
                a = self.assume_deep(c.term, False, s, c)
                if a is not None:
                    F.add(a)
            return frozenset(T), frozenset(F), r
        if isinstance(c, CCall):
            r = self.seq(c.evs, S)
            S = r.pop("n", frozenset())
            S = self.bind(S, lambda s: self.enter_call(c.call, s))
            q = self.seq(c.call.body, S)
            X = dict(r)
            if q.get("t"):
                X = merge_exits(X, {"t": q["t"]})
            T = q.get("rt", frozenset()) | q.get("r", frozenset()) | q.get("n", frozenset())
            F = q.get("rf", frozenset()) | q.get("r", frozenset()) | q.get("n", frozenset())

            def fin(Z, truth):
                Z = self.bind(Z, lambda s: self.event(c.call.ev, s))
                Z = self.bind(Z, lambda s: self.leave_call(c.call, s))
                out = set()
                for s in Z:
                    a = self.assume(("ret", c.call.ev.name, c.call.ev.obj) + tuple(c.call.ev.args or ()), truth, s, c)
                    if a is not None:
                        out.add(a)
                return frozenset(out)
            return fin(T, True), fin(F, False), X
        return S, S, {}

    def assume_deep(self, t, truth, st, atom):
        if st is None:
            return None
        if isinstance(t, tuple):
            if t[0] == "not":
                return self.assume_deep(t[1], not truth, st, atom)
            if t[0] == "op" and t[1] == "&&" and truth:
                s = self.assume_deep(t[2], True, st, atom)
                return self.assume_deep(t[3], True, s, atom)
            if t[0] == "op" and t[1] == "||" and not truth:
                s = self.assume_deep(t[2], False, st, atom)
                return self.assume_deep(t[3], False, s, atom)
            if t[0] == "lit" and isinstance(t[1], bool):
                return st if t[1] == truth else None
        return self.assume(t, truth, st, atom)


def matched_all(n):
    return [v for vals, _ in n.cases for v in vals if v is not None]


def merge_exits(a, b):
    out = dict(a)
    for k, v in b.items():
        if v:
            out[k] = out.get(k, frozenset()) | v
    return out


# ------------------------------------------------------------------ walking
def walk(tree, parents=()):
    """yield (node, parents) for every node of the tree"""
    for n in tree:
        yield n, parents
        p2 = parents + (n,)
        if isinstance(n, CallN):
            yield from walk(n.body, p2)
        elif isinstance(n, If):
            yield from walk_cond(n.cond, p2)
            yield from walk(n.then, p2)
            yield from walk(n.els, p2)
        elif isinstance(n, Loop):
            if n.cond is not None:
                yield from walk_cond(n.cond, p2)
            yield from walk(n.body, p2)
            yield from walk(n.inc, p2)
        elif isinstance(n, Switch):
            for _, b in n.cases:
                yield from walk(b, p2)
        elif isinstance(n, Try):
            yield from walk(n.body, p2)
            for h in n.handlers:
                yield from walk(h, p2)
        elif isinstance(n, Ret) and n.cond is not None:
            yield from walk_cond(n.cond, p2)


def walk_cond(c, parents):
    if isinstance(c, CAtom):
        yield from walk(c.evs, parents)
    elif isinstance(c, CNot):
        yield from walk_cond(c.a, parents)
    elif isinstance(c, (CAnd, COr)):
        yield from walk_cond(c.a, parents)
        yield from walk_cond(c.b, parents)
    elif isinstance(c, CTern):
        yield from walk_cond(c.c, parents)
        yield from walk_cond(c.a, parents)
        yield from walk_cond(c.b, parents)
    elif isinstance(c, CCall):
        yield from walk(c.evs, parents)
        yield from walk([c.call], parents)


def events(tree):
    for n, ps in walk(tree):
        if isinstance(n, Ev):
            yield n, ps
        elif isinstance(n, CallN):
            yield n.ev, ps


def dump(tree, ind=0, out=None):
    pr = (lambda s: out.append(s)) if out is not None else print
    sp = "  " * ind
    for n in tree:
        if isinstance(n, Ev):
            pr("%s%s %s obj=%s args=%s  @%s" % (sp, n.kind, n.name, show(n.obj), [show(a) for a in n.args or []], n.line))
        elif isinstance(n, CallN):
            pr("%sCALL %s obj=%s args=%s -> %s @%s" % (sp, n.ev.name, show(n.ev.obj), [show(a) for a in n.ev.args], show(n.ev.res), n.ev.line))
            dump(n.body, ind + 1, out)
        elif isinstance(n, If):
            pr("%sIF %s @%s" % (sp, cshow(n.cond), n.line))
            dump(n.then, ind + 1, out)
            if n.els:
                pr(sp + "ELSE")
                dump(n.els, ind + 1, out)
        elif isinstance(n, Loop):
            pr("%sLOOP %s range=%s elem=%s cover=%s cond=%s @%s" % (sp, n.kind, show(n.rangeterm), show(n.elem), n.cover, cshow(n.cond) if n.cond else None, n.line))
            dump(n.body, ind + 1, out)
            if n.inc:
                pr(sp + " INC")
                dump(n.inc, ind + 1, out)
        elif isinstance(n, Switch):
            pr("%sSWITCH %s" % (sp, show(n.term)))
            for v, b in n.cases:
                pr("%s CASE %s" % (sp, [show(x) for x in v]))
                dump(b, ind + 2, out)
        elif isinstance(n, Ret):
            pr("%sRET %s" % (sp, show(n.val)))
        elif isinstance(n, Thr):
            pr(sp + "THROW")
        else:
            pr(sp + type(n).__name__)


def cshow(c):
    if isinstance(c, CAtom):
        return show(c.term)
    if isinstance(c, CNot):
        return "!" + cshow(c.a)
    if isinstance(c, CAnd):
        return "(%s && %s)" % (cshow(c.a), cshow(c.b))
    if isinstance(c, COr):
        return "(%s || %s)" % (cshow(c.a), cshow(c.b))
    if isinstance(c, CCall):
        return "call:" + c.call.ev.name.split("::")[-1] + "(" + show(c.call.ev.obj) + ")"
    if isinstance(c, CConst):
        return str(c.v)
    return "?"
