"""Abstract interpretation of numeric code: every number is a polynomial over
symbols for the unknown inputs (lib/poly.py), every object a set of fields.

Both sides of an undecided branch are evaluated and their effects joined into
conditional values; loops whose trip count is not a compile-time constant
forget what they change; calls are inlined, calls that cannot be looked into
give an unknown result and forget what they may change."""
import re
from fractions import Fraction
from facts import AnalysisBroken
from poly import P, ZERO, ONE, num, atom, lt, eq, ite, inv, div, sqrt, cos, sin, TooBig
import poly

FLOATS = {"float", "double", "long double"}
NUMERIC = {"float", "double", "int", "unsigned int", "unsigned long", "long", "short", "unsigned short", "unsigned char",
           "char", "signed char", "long long", "unsigned long long", "long double", "bool", "size_t"}
DEREFS = ("std::unique_ptr", "std::shared_ptr", "std::reference_wrapper")


SEQ = ("std::vector<", "std::list<", "std::deque<", "std::__cxx11::list<")


class Cell:
    __slots__ = ("v", "path")

    def __init__(self, v=None, path=None):
        self.v = v
        self.path = path

    def __repr__(self):
        return "<%s>" % (self.v,)


class Obj:
    __slots__ = ("cls", "f", "path")

    def __init__(self, cls, path=None):
        self.cls = cls
        self.f = {}
        self.path = path    # symbolic when not None

    def __repr__(self):
        return "%s{%s}" % (self.cls.split("::")[-1], ", ".join("%s=%r" % (k.split("::")[-1], c.v) for k, c in self.f.items()))


class Arr:
    __slots__ = ("c", "cls")

    def __init__(self, cells, cls=None):
        self.c = cells
        self.cls = cls

    def __repr__(self):
        return "[%s]" % ", ".join(repr(x.v) for x in self.c)


class Ptr:
    """a pointer: to a cell, or to element i of an array"""
    __slots__ = ("cell", "arr", "i")

    def __init__(self, cell=None, arr=None, i=None):
        self.cell, self.arr, self.i = cell, arr, i

    def target(self):
        if self.arr is not None:
            if 0 <= self.i < len(self.arr.c):
                return self.arr.c[self.i]
            raise OutOfRange("element %s of %s" % (self.i, len(self.arr.c)))
        return self.cell

    def key(self):
        return (id(self.arr), self.i) if self.arr is not None else (id(self.cell), None)

    def __repr__(self):
        return "&"


class GPtr(Ptr):
    """one of several pointers, each under its condition (conditions are
    exclusive and complete)"""
    __slots__ = ("alts", "alg")

    def __init__(self, alg, alts):
        Ptr.__init__(self)
        self.alg, self.alts = alg, alts

    def target(self):
        out = []
        for c, p in self.alts:
            if p is NULL:
                continue
            try:
                out.append((c, p.target()))
            except OutOfRange:
                continue
        if not out:
            raise OutOfRange("no element")
        return out[0][1] if len(out) == 1 else VCell(self.alg, out)

    def key(self):
        return ("g", id(self))


class VCell(Cell):
    """one of several cells, each under its condition"""
    __slots__ = ("alg", "alts")

    def __init__(self, alg, alts):
        self.alg, self.alts, self.path = alg, alts, None

    @property
    def v(self):
        out = self.alts[-1][1].v
        for c, x in reversed(self.alts[:-1]):
            out = self.alg.join(c, x.v, out)
        return out


class Null:
    def __repr__(self):
        return "null"


NULL = Null()


class Order:
    """the outcome of a three-way comparison"""
    def __init__(self, a, b):
        self.a, self.b = a, b


class Lam:
    def __init__(self, fn, env, this, caps):
        self.fn, self.env, self.this, self.caps = fn, env, this, caps


class FnRef:
    def __init__(self, fid):
        self.fid = fid


class Unknown:
    """a value nothing is known about"""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "?" + self.why


class Split(Exception):
    """the analysis goes on separately for each value of an integer input"""
    def __init__(self, a, values):
        self.atom, self.values = a, values


class OutOfRange(Exception):
    pass


class Stop(Exception):
    """the analysis gave up on this evaluation"""


class Exit:
    def __init__(self, kind, pc, delta, val, line):
        self.kind, self.pc, self.delta, self.val, self.line = kind, pc, delta, val, line


class Frame:
    def __init__(self, fn, this, parent):
        self.fn, self.this, self.parent = fn, this, parent
        self.env = {}
        self.exits = []
        self.alive = True
        self.mark = 0
        self.pc0 = ONE


def unref(t):
    t = (t or "").strip()
    t = re.sub(r"\bconst\b", "", t)
    t = t.replace("volatile", "").replace("&&", "").replace("&", "").strip()
    return re.sub(r"\s+", " ", t)


def array_of(t):
    m = re.match(r"^std::array<(.*), (\d+)>$", t)
    if m:
        return m.group(1).strip(), int(m.group(2))
    m = re.match(r"^(.*?)\[(\d+)\]((?:\[\d+\])*)$", t)
    if m:
        return (m.group(1) + m.group(3)).strip(), int(m.group(2))
    return None


class Alg:
    def __init__(self, prog, opaque=lambda fn: False, max_depth=40, model=None):
        self.p = prog
        self.opaque = opaque
        self.max_depth = max_depth
        self.model = model or {}      # plain name -> handler(alg, obj, args, node)
        self.trail = []
        self.pc = ONE
        self.outer = ONE              # condition of the calls that lead here
        self.frame = None
        self.depth = 0
        self.inlined = set()
        self.calls = []               # (name, obj, args, line, file) of opaque calls
        self.events = []              # filled by models
        self.facts = {}
        self.assumed = []             # conditions under which execution goes on
        self.null_at = ZERO           # the condition under which null was dereferenced
        self.throws = None            # conditions under which something was thrown
        self.steps = 0
        self.fresh = 0
        self.globals = {}
        self.loops_forgotten = []
        self.ints = set()             # inputs of an integer type
        self.implications = {}
        self.refs = {}
        self.pins = {}                # inputs fixed in this case
        self.splitting = False
        self.loop_conds = []
        self.unjoined = []            # conditions whose two outcomes have no common value

    # ----------------------------------------------------------- symbols
    def sym(self, t, path):
        """an arbitrary value of a type"""
        t = unref(t)
        if t == "bool":
            return atom(("bool", path))
        if t in NUMERIC:
            if t not in FLOATS:
                self.ints.add(("sym", path))
            return self.pins.get(("sym", path)) or atom(("sym", path))
        if t.endswith("*"):
            return Ptr(cell=Cell(self.sym(t[:-1].strip(), path), path))
        a = array_of(t)
        if a:
            return Arr([Cell(self.sym(a[0], "%s[%d]" % (path, i)), "%s[%d]" % (path, i)) for i in range(a[1])], t)
        m = re.match(r"^std::optional<(.*)>$", t)
        if m:
            o = Obj(t)
            o.f["has"] = Cell(atom(("bool", path + ".has")))
            o.f["val"] = Cell(self.sym(m.group(1), path + ".val"), path + ".val")
            return o
        for d in DEREFS:
            if t.startswith(d + "<"):
                inner = split_targs(t)[0]
                return Ptr(cell=Cell(self.sym(inner, path), path))
        if t.startswith("std::pair<"):
            o = Obj(t)
            a, b = split_targs(t)[:2]
            o.f["first"], o.f["second"] = Cell(self.sym(a, path + ".first")), Cell(self.sym(b, path + ".second"))
            return o
        if t.startswith("std::tuple<"):
            return Arr([Cell(self.sym(x, "%s<%d>" % (path, i))) for i, x in enumerate(split_targs(t))], t)
        if t in self.p.records:
            return Obj(t, path)
        if t.startswith(("std::vector<", "std::list<", "std::initializer_list<", "std::unordered_map<", "std::unique_ptr<", "std::function<", "std::basic_string", "std::deque<")):
            return Obj(t, path)
        e = self.enum(t)
        if e:
            return atom(("sym", path))
        return Obj(t, path) if "::" in t else Unknown(t)

    def enum(self, t):
        return "::" in t and t not in self.p.records and "<" not in t.split("::")[-1]

    def references(self, cls):
        r = self.refs.get(cls)
        if r is None:
            r = self.refs[cls] = frozenset(n for n, t, _ in self.fields(cls) if t.rstrip().endswith("&"))
        return r

    def fields(self, cls):
        """(qualified field, type) of a record and its bases"""
        r = self.p.records.get(cls)
        if r is None:
            return []
        out = []
        for b in r["bases"]:
            b = b if isinstance(b, str) else b.get("type", "")
            out += self.fields(unref(b))
        for f in r["fields"]:
            out.append((r["plain"] + "::" + f["name"], f["type"], f))
        return out

    def getf(self, o, field, t=None):
        """the cell of a field"""
        if isinstance(o, Obj):
            c = o.f.get(field)
            if c is None:
                if o.path is not None:
                    ft = t
                    for n, x, _ in self.fields(o.cls):
                        if n == field:
                            ft = x
                    pth = o.path + "." + field.split("::")[-1]
                    if ft and ft.rstrip().endswith("&"):
                        c = Cell(self.sym(ft, pth), pth)
                    else:
                        c = Cell(self.sym(ft, pth), pth)
                else:
                    ft = t
                    for n, x, _ in self.fields(o.cls):
                        if n == field:
                            ft = x
                    c = Cell(self.uninit(ft) if ft else Unknown("uninitialised"))
                    if isinstance(c.v, Unknown):
                        c.v = Unknown("uninitialised %s" % field.split("::")[-1])
                o.f[field] = c
            return c
        raise Stop("field %s of %r" % (field, o))

    # ------------------------------------------------------------ copies
    def copy(self, v):
        if isinstance(v, Obj):
            o = Obj(v.cls, v.path)
            refs = self.references(v.cls)
            for k, c in v.f.items():
                o.f[k] = c if k in refs else Cell(self.copy(c.v), c.path)
            return o
        if isinstance(v, Arr):
            return Arr([Cell(self.copy(c.v), c.path) for c in v.c], v.cls)
        return v

    def set(self, cell, v):
        if not isinstance(cell, Cell):
            return
        if isinstance(cell, VCell):
            for c, x in cell.alts:
                self.set(x, self.join(c, v, x.v))
            return
        self.trail.append((cell, cell.v))
        cell.v = v

    def assign(self, cell, v):
        """keeps references to parts of the target valid"""
        if isinstance(cell, VCell):
            for c, x in cell.alts:
                self.assign(x, self.join(c, v, x.v))
            return
        t = cell.v
        if isinstance(v, Obj) and isinstance(t, Obj) and t is not v and (t.cls == v.cls or not t.cls):
            names = set(t.f) | set(v.f)
            if v.path is not None or t.path is not None:
                names |= {n for n, _, _ in self.fields(v.cls)}
            for n in sorted(names):
                if n in v.f or v.path is not None:
                    src = self.getf(v, n).v
                    dst = t.f.get(n)
                    if dst is None:
                        if t.path is not None:
                            dst = self.getf(t, n)
                        else:
                            dst = t.f[n] = Cell(Unknown("uninitialised"))
                    self.assign(dst, self.copy(src))
            return
        if isinstance(v, Arr) and isinstance(t, Arr) and len(v.c) == len(t.c):
            for a, b in zip(t.c, v.c):
                self.assign(a, self.copy(b.v))
            return
        self.set(cell, v)

    # ----------------------------------------------------------- branching
    def join(self, c, a, b):
        """value that is a when c, else b"""
        if a is b or c == ONE:
            return a
        if c == ZERO:
            return b
        if isinstance(a, P) and isinstance(b, P):
            return ite(c, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            if a.path is not None and a.path == b.path and not a.f and not b.f:
                return a
            o = Obj(a.cls)
            names = set(a.f) | set(b.f)
            if a.path is not None or b.path is not None:
                names |= {n for n, _, _ in self.fields(a.cls)}
            for n in names:
                if n not in a.f and a.path is None or n not in b.f and b.path is None:
                    o.f[n] = Cell((self.getf(b, n) if n not in a.f and a.path is None else self.getf(a, n)).v)
                    continue
                o.f[n] = Cell(self.join(c, self.getf(a, n).v, self.getf(b, n).v))
            return o
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.c) == len(b.c):
            return Arr([Cell(self.join(c, x.v, y.v)) for x, y in zip(a.c, b.c)], a.cls)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.key() == b.key():
            return a
        if isinstance(a, (Ptr, Null)) and isinstance(b, (Ptr, Null)):
            alts = []
            for w, x in ((c, a), (ONE - c, b)):
                for cc, p in (x.alts if isinstance(x, GPtr) else [(ONE, x)]):
                    k = "null" if p is NULL else p.key()
                    g = self.simplify(w * cc, here=False)
                    if g == ZERO:
                        continue
                    for i, (c0, p0) in enumerate(alts):
                        if k == ("null" if p0 is NULL else p0.key()):
                            alts[i] = (c0 + g, p0)
                            break
                    else:
                        alts.append((g, p))
            if len(alts) == 1:
                return alts[0][1]
            return GPtr(self, alts) if len(alts) <= 12 else self.apart(c)
        # reading an uninitialised value is a separate matter
        if isinstance(a, Unknown) and a.why.startswith("uninit"):
            return b
        if isinstance(b, Unknown) and b.why.startswith("uninit"):
            return a
        return self.apart(c)

    def apart(self, c):
        def inner(p):
            for x in sorted(p.atoms(), key=repr):
                if x[0] == "bool":
                    yield x
                elif x[0] in ("lt0", "eq0"):
                    n = False
                    for y in inner(x[1]):
                        n = True
                        yield y
                    if not n:
                        yield x
        for x in inner(c):
            if x not in self.unjoined:
                self.unjoined.append(x)
            break
        return Unknown("joined")

    def branch(self, c, fa, fb):
        """run fa if c else fb, joining the effects; returns joined value"""
        c = self.simplify(c)
        if c == ONE:
            return fa()
        if c == ZERO:
            return fb()
        fr = self.frame
        pc = self.pc
        m = len(self.trail)

        def run(f, cond):
            self.pc = pc * cond
            fr.alive = True
            v = f()
            alive = fr.alive
            delta = {}
            for cell, old in self.trail[m:]:
                delta[cell] = cell.v
            self.roll(m)
            return v, alive, delta
        va, la, da = run(fa, c)
        vb, lb, db = run(fb, ONE - c)
        self.pc = pc
        if la and lb:
            for cell in list(da) + [x for x in db if x not in da]:
                self.set(cell, self.join(c, da.get(cell, cell.v), db.get(cell, cell.v)))
            fr.alive = True
            if va is None or vb is None:
                return va if vb is None else vb
            va2, vb2 = self.rv(va), self.rv(vb)
            if isinstance(va, Cell) and va is vb:
                return va
            return self.join(c, va2, vb2)
        d, v = (da, va) if la else (db, vb)
        if la or lb:
            for cell, x in d.items():
                self.set(cell, x)
            fr.alive = True
            self.pc = pc * (c if la else ONE - c) if self.frame_exits_since(pc) else pc
            if not self.frame_exits_since(pc):
                self.assume(c if la else ONE - c, pc)
            return v
        fr.alive = False
        return None

    def assume(self, c, pc):
        """execution only goes on when c, at least where this point is reached"""
        try:
            here = self.outer * pc
            if here != ONE:
                i = ONE - here * (ONE - c)
                if len(i.m) <= 200:
                    c = i
        except poly.TooBig:
            pass
        self.assumed.append(c)
        for a, v in poly.forced([c]).items():
            self.facts[a] = v

    def simplify(self, c, here=True):
        """a condition, given what is known to hold wherever execution goes on"""
        if c.const() is not None or not self.facts and (not here or self.pc == ONE):
            return c
        known = self.facts
        if here and self.pc != ONE and len(self.pc.m) <= 8:
            more = poly.forced([self.pc])
            if more:
                known = {**known, **more}
        if not known:
            return c
        hit = {}
        for a in c.atoms():
            v = known.get(a)
            if v is None and a[0] in ("lt0", "eq0"):
                v = self.implied(a, known)
            if v is not None:
                hit[a] = v
        return poly.subst(c, hit.get) if hit else c

    def implied(self, a, known):
        """a comparison decided by the linear facts known"""
        q = a[1]
        if len(q.m) > 6:
            return None
        key = (a, frozenset(known.items()))
        if key in self.implications:
            return self.implications[key]
        f = []
        for b, v in known.items():
            if b[0] not in ("lt0", "eq0") or len(b[1].m) > 6:
                continue
            if b[0] == "lt0":
                f.append((-b[1], True) if v == ONE else (b[1], False))
            elif v == ONE:
                f += [(b[1], False), (-b[1], False)]
        r = None
        if f and len(f) <= 24:
            if a[0] == "lt0":
                if poly.empty(f + [(q, False)]):
                    r = ONE
                elif poly.empty(f + [(-q, True)]):
                    r = ZERO
            elif poly.empty(f + [(q, True)]) and poly.empty(f + [(-q, True)]):
                r = ONE
            elif poly.empty(f + [(q, False), (-q, False)]):
                r = ZERO
        self.implications[key] = r
        return r

    def frame_exits_since(self, pc):
        return bool(self.frame.exits)

    def roll(self, m):
        for cell, old in reversed(self.trail[m:]):
            cell.v = old
        del self.trail[m:]

    def leave(self, kind, val, line):
        fr = self.frame
        delta = {}
        for cell, old in self.trail[fr.mark:]:
            delta[cell] = cell.v
        fr.exits.append(Exit(kind, self.pc, delta, val, line))
        fr.alive = False

    def fold(self, exits):
        """join the state of the exits with the current one (if alive)"""
        fr = self.frame
        base = {}
        for cell, old in self.trail[fr.mark:]:
            base.setdefault(cell, old)
        val = None
        first = not fr.alive
        for e in reversed(exits):
            if first:
                # the state becomes that of the exit
                for cell in list(base):
                    if cell not in e.delta and cell.v is not base[cell]:
                        self.set(cell, base[cell])
                for cell, v in e.delta.items():
                    base.setdefault(cell, cell.v)
                    self.set(cell, v)
                val = e.val
                first = False
                continue
            cells = set(e.delta)
            for cell in cells | set(base):
                old = base.get(cell, cell.v)
                v = e.delta.get(cell, old)
                base.setdefault(cell, cell.v)
                if v is not cell.v:
                    self.set(cell, self.join(e.pc, v, cell.v))
            if e.val is not None or val is not None:
                if val is None:
                    val = e.val
                elif e.val is None:
                    pass
                elif isinstance(e.val, Cell) and e.val is val:
                    pass
                else:
                    val = self.join(e.pc, self.rv(e.val), self.rv(val))
        return val

    # --------------------------------------------------------------- entry
    def call_fn(self, fn, this, args, argnodes=None, line=0):
        if self.depth >= self.max_depth:
            raise Stop("call depth at %s" % fn["name"])
        self.depth += 1
        self.inlined.add(fn["id"])
        fr = Frame(fn, this, self.frame)
        save, pc, outer = self.frame, self.pc, self.outer
        if pc != ONE:
            try:
                self.outer = outer * pc
            except poly.TooBig:
                pass
        self.frame = fr
        fr.mark = len(self.trail)
        # exits of this frame are relative to its entry
        self.pc = ONE
        try:
            for i, prm in enumerate(fn["params"]):
                v = args[i] if i < len(args) else Unknown("missing argument")
                t = prm["type"]
                if t.rstrip().endswith("&"):
                    fr.env[prm["id"]] = v if isinstance(v, Cell) else Cell(v)
                else:
                    fr.env[prm["id"]] = Cell(self.copy(self.rv(self.decay(v, t))))
            if fn.get("ctor"):
                self.run_inits(fn, this)
            if fn.get("body"):
                self.stmt(fn["body"])
            rets = [e for e in fr.exits if e.kind == "return"]
            val = self.fold(rets)
            dead = not rets and not fr.alive
        finally:
            self.frame, self.pc, self.outer = save, pc, outer
            self.depth -= 1
        if dead and save is not None:
            save.alive = False
        if val is not None and not (fn.get("ret") or "").rstrip().endswith("&"):
            val = self.copy(self.rv(val))
        return val

    def run_inits(self, fn, this):
        o = this.v
        for i in fn.get("inits") or []:
            if i.get("e") is None:
                continue
            if "field" in i:
                q = self.qfield(fn, i["field"])
                e = i["e"]
                ft = None
                for n, t, _ in self.fields(o.cls):
                    if n == q:
                        ft = t
                if ft and ft.rstrip().endswith("&"):
                    while e.get("k") == "init" and len(e.get("elems") or []) == 1:
                        e = e["elems"][0]
                    o.f[q] = self.ev(e)
                    if not isinstance(o.f[q], Cell):
                        o.f[q] = Cell(o.f[q])
                    continue
                v = self.init_value(e, ft)
                self.trail_new(o, q)
                self.set(o.f[q], v)
            else:
                e = i["e"]
                if e.get("k") == "ctor":
                    self.construct(e, this)
                elif e.get("k") == "init":
                    self.aggregate(e, this)
                else:
                    self.rv(self.ev(e))

    def trail_new(self, o, q):
        if q not in o.f:
            o.f[q] = Cell(Unknown("uninitialised %s" % q.split("::")[-1]))
            if o.path is not None:
                del o.f[q]
                self.getf(o, q)

    def qfield(self, fn, name):
        return (fn.get("clsPlain") or "") + "::" + name

    def run(self, fn, this=None, args=()):
        """evaluate a function from scratch: (result, alive)"""
        self.frame = Frame({"name": "<root>", "params": [], "file": fn["file"]}, None, None)
        self.frame.mark = len(self.trail)
        self.pc = ONE
        v = self.call_fn(fn, this, list(args))
        return v

    # ---------------------------------------------------------- statements
    def stmt(self, s):
        if s is None or not self.frame.alive:
            return
        self.steps += 1
        if self.steps > 400000:
            raise Stop("budget")
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Stop("statement %s" % k)
        m(s)

    def s_block(self, s):
        for x in s["c"]:
            self.stmt(x)

    def s_expr(self, s):
        self.ev(s["e"])

    def s_decl(self, s):
        for v in s["vars"]:
            self.declare(v)

    def declare(self, v):
        t = v["type"]
        init = v.get("init")
        if t.rstrip().endswith("&"):
            x = self.ev(init) if init is not None else Unknown("unbound")
            self.frame.env[v["id"]] = x if isinstance(x, Cell) else Cell(x)
        elif init is not None:
            self.frame.env[v["id"]] = Cell(self.init_value(init, t))
        else:
            self.frame.env[v["id"]] = Cell(self.uninit(t))
        if v.get("bindings"):
            for b in v["bindings"]:
                x = self.ev(b["e"])
                self.frame.env[b["id"]] = x if isinstance(x, Cell) else Cell(x)

    def uninit(self, t):
        t = unref(t)
        if t.startswith(SEQ):
            return Arr([], t)
        a = array_of(t)
        if a:
            return Arr([Cell(self.uninit(a[0])) for _ in range(a[1])], t)
        if t in self.p.records:
            return Obj(t)
        return Unknown("uninitialised")

    def init_value(self, e, t):
        if e.get("k") == "ctor" and not e.get("copymove") and not (t or "").rstrip().endswith("&"):
            # built in place
            return self.rv(self.e_ctor(e))
        v = self.copy(self.rv(self.decay(self.ev(e), t or "")))
        if e.get("k") == "init" and not isinstance(v, (Obj, Arr)):
            return v
        return v

    def s_null(self, s):
        pass

    def s_return(self, s):
        v = None
        if s.get("e") is not None:
            v = self.decay(self.ev(s["e"]), self.frame.fn.get("ret") or "")
            if not (self.frame.fn.get("ret") or "").rstrip().endswith("&"):
                v = self.copy(self.rv(v))
        if self.frame.alive:
            self.leave("return", v, s["l"])

    def s_throw(self, s):
        self.rejected()
        self.frame.alive = False

    def rejected(self):
        if self.throws is not None:
            self.throws.append((self.outer * self.pc, len(self.loops_forgotten)))

    def s_if(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        for v in s.get("condVar") or []:
            self.declare(v)
        c = self.truth(self.ev(s["cond"]))
        self.branch(c, lambda: self.stmt(s.get("then")), lambda: self.stmt(s.get("else")))

    def s_break(self, s):
        self.leave("break", None, s["l"])

    def s_continue(self, s):
        self.leave("continue", None, s["l"])

    def iteration(self, body):
        """runs the body once; False when the loop is left on every path"""
        fr = self.frame
        n = len(fr.exits)
        self.stmt(body)
        cont = [e for e in fr.exits[n:] if e.kind == "continue"]
        if cont:
            self.fold(cont)
            fr.exits[n:] = [e for e in fr.exits[n:] if e.kind != "continue"]
            fr.alive = True
        return fr.alive

    def finish_loop(self, n):
        fr = self.frame
        br = [e for e in fr.exits[n:] if e.kind == "break"]
        if br:
            self.fold(br)
            fr.exits[n:] = [e for e in fr.exits[n:] if e.kind != "break"]
            fr.alive = True

    def loop(self, cond, step, body, s, first=True):
        fr = self.frame
        n = len(fr.exits)
        pc = self.pc
        it = 0
        while True:
            c = ONE if cond is None or not first and it == 0 else self.simplify(self.truth(self.rv(cond())))
            if c == ZERO:
                break
            if c != ONE or it > 300:
                if it > 300 or not self.unrolled(c, cond, step, body, 3):
                    self.apart(c)
                    self.loop_conds.append((s, c))
                    self.forget(cond, step, body, s)
                break
            it += 1
            if not self.iteration(body):
                break
            if step:
                step()
        if fr.alive and len(fr.exits) == n:
            self.pc = pc
        self.finish_loop(n)

    def unrolled(self, c, cond, step, body, n):
        """a loop that ends by itself after a few conditional iterations"""
        fr = self.frame
        if getattr(self, "in_unroll", 0) > 1:
            return False
        m, ne, pc, alive = len(self.trail), len(fr.exits), self.pc, fr.alive
        facts = dict(self.facts)
        marks = [len(self.calls), len(self.events), len(self.assumed), len(self.loops_forgotten)]
        claims = len(getattr(self, "claims", ()))
        self.in_unroll = getattr(self, "in_unroll", 0) + 1

        class Again(Exception):
            pass

        def more(c, left):
            if c == ZERO or len(c.m) < 40 and len(self.pc.m) < 40 and self.pc * c == ZERO:
                return
            if left == 0:
                raise Again()

            def once():
                if self.iteration(body):
                    if step:
                        step()
                    more(self.truth(self.rv(cond())) if cond else ONE, left - 1)
            self.branch(c, once, lambda: None)
        try:
            more(c, n)
            return True
        except (Again, Stop, poly.TooBig):
            self.roll(m)
            self.facts = facts
            del fr.exits[ne:]
            self.pc, fr.alive = pc, alive
            del self.calls[marks[0]:], self.events[marks[1]:], self.assumed[marks[2]:], self.loops_forgotten[marks[3]:]
            if claims or hasattr(self, "claims"):
                del self.claims[claims:]
            return False
        finally:
            self.in_unroll -= 1

    def forget(self, cond, step, body, s):
        """a loop of unknown length: what it changes becomes unknown, except
        for signs that every iteration keeps"""
        fr = self.frame
        self.loops_forgotten.append(s)
        n = len(fr.exits)
        pc, alive = self.pc, fr.alive
        known = None
        cells = {}
        for rnd in range(6):
            m = len(self.trail)
            # start of an arbitrary iteration
            for cell, a in cells.items():
                self.set(cell, a)
            fr.alive = True
            if cond is not None:
                self.rv(cond())
            self.iteration(body)
            if step and fr.alive:
                step()
            changed = {}
            for cell, old in self.trail[m:]:
                changed.setdefault(cell, None)
            self.roll(m)
            del fr.exits[n:]
            fr.alive, self.pc = alive, pc
            new = {c: None for c in changed if c not in cells}
            if not new:
                break
            for cell in new:
                self.fresh += 1
                cells[cell] = self.havoc_value(cell.v, "loop%d:%s" % (s["l"], self.fresh))
        for cell, a in cells.items():
            self.set(cell, a)
        # one pass for exits out of the loop (returns, breaks)
        m = len(self.trail)
        self.fresh += 1
        self.pc = pc * atom(("bool", "loop%d again %d" % (s["l"], self.fresh)))
        self.iteration(body)
        ex = fr.exits[n:]
        left = {}
        for cell, old in self.trail[m:]:
            left[cell] = cell.v
        self.roll(m)
        fr.alive, self.pc = alive, pc
        if any(e.kind == "return" for e in ex):
            pass

    def havoc_value(self, v, name):
        if isinstance(v, P):
            return atom(("sym", name))
        if isinstance(v, (Obj,)):
            return Obj(v.cls, name)
        if isinstance(v, Arr) and (v.cls or "").startswith(SEQ):
            return Obj(v.cls, name)
        if isinstance(v, Arr):
            return Arr([Cell(self.havoc_value(c.v, "%s[%d]" % (name, i))) for i, c in enumerate(v.c)], v.cls)
        return Unknown(name)

    def s_for(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        self.loop((lambda: self.ev(s["cond"])) if s.get("cond") else None, (lambda: self.ev(s["inc"])) if s.get("inc") else None, s["body"], s)

    def s_while(self, s):
        self.loop(lambda: self.ev(s["cond"]), None, s["body"], s)

    def s_do(self, s):
        self.loop(lambda: self.ev(s["cond"]), None, s["body"], s, first=False)

    def s_rangefor(self, s):
        r = self.ev(s["range"])
        rv = self.rv(r)
        env = self.frame.env
        env[s["rangeVar"]] = r if isinstance(r, Cell) else Cell(r)
        v = s["var"] if "var" in s else None
        b = self.rv(self.decay(self.ev(s["begin"]), "*"))
        e = self.rv(self.decay(self.ev(s["end"]), "*"))
        vd = s.get("vardecl") or v
        byref = (vd or {}).get("type", "").rstrip().endswith("&") if isinstance(vd, dict) else True
        vid = vd["id"] if isinstance(vd, dict) else vd

        def bind(cell):
            env[vid] = cell if byref else Cell(self.copy(cell.v))
            for bb in (vd.get("bindings") or []) if isinstance(vd, dict) else []:
                x = self.ev(bb["e"])
                env[bb["id"]] = x if isinstance(x, Cell) else Cell(x)
        fr = self.frame
        n = len(fr.exits)
        if isinstance(b, Ptr) and isinstance(e, Ptr) and b.arr is not None and b.arr is e.arr:
            for i in range(b.i, e.i):
                bind(b.arr.c[i])
                if not self.iteration(s["body"]):
                    break
            self.finish_loop(n)
            return
        if (isinstance(b, (Obj, GPtr)) or isinstance(e, GPtr)) and isinstance(e, (Obj, Ptr)) and isinstance(vd, dict) and vd.get("init") is not None and s.get("cond") and s.get("inc") and (
                isinstance(b, Ptr) or b.f):
            env[s["beginVar"]], env[s["endVar"]] = Cell(self.copy(b)), Cell(self.copy(e))
            self.loop(lambda: self.ev(s["cond"]), lambda: self.ev(s["inc"]), {"k": "block", "l": s["l"], "c": [{"k": "decl", "l": s["l"], "vars": [vd]}, s["body"]]}, s)
            return
        # unknown sequence: an arbitrary element
        self.loop_conds.append((s, ONE))
        self.fresh += 1
        et = s.get("etype") or (vd or {}).get("type", "") if isinstance(vd, dict) else ""
        bind(Cell(self.sym(et, "each%d" % s["l"])))
        self.forget(None, None, s["body"], s)

    def s_switch(self, s):
        v = self.rv(self.ev(s["cond"]))
        if not isinstance(v, P):
            raise Stop("switch value")
        items, labels = [], []

        def flat(x):
            while x is not None and x.get("k") in ("case", "default"):
                labels.append((len(items), self.rv(self.ev(x["v"])) if x["k"] == "case" else None))
                x = x.get("sub")
            if x is not None:
                items.append(x)
        for x in (s["body"]["c"] if s["body"]["k"] == "block" else [s["body"]]):
            flat(x)
        fr = self.frame
        n = len(fr.exits)
        cases = [(i, eq(v, c)) for i, c in labels if c is not None]
        dflt = [i for i, c in labels if c is None]

        def from_(i):
            def f():
                for x in items[i:]:
                    self.stmt(x)
            return f

        def chain(j):
            if j == len(cases):
                if dflt:
                    return from_(dflt[0])
                if s.get("enumerators") and len(s["enumerators"]) == len(cases) and not s.get("hasDefault"):
                    return lambda: None
                return lambda: None
            i, c = cases[j]
            return lambda: self.branch(c, from_(i), chain(j + 1))
        chain(0)()
        self.finish_loop(n)

    # --------------------------------------------------------- expressions
    def rv(self, x):
        return x.v if isinstance(x, Cell) else x

    def truth(self, x):
        v = self.rv(x)
        if isinstance(v, P):
            c = v.const()
            if c is not None:
                return ONE if c else ZERO
            if all(e == 1 and poly._atoms[i][0] in poly.INDICATORS for k in v.m for i, e in k):
                return v
            return ONE - eq(v, ZERO)
        if isinstance(v, GPtr):
            return sum((c for c, p in v.alts if p is not NULL), ZERO)
        if isinstance(v, Ptr):
            return ONE
        if v is NULL:
            return ZERO
        if isinstance(v, Obj) and "has" in v.f:
            return v.f["has"].v
        self.fresh += 1
        return atom(("bool", "unknown%d" % self.fresh))

    def ev(self, e):
        if "ci" in e and e["k"] == "var":
            return num(e["ci"])
        if "cv" in e and e["k"] in ("var",):
            return num(Fraction(str(e["cv"])) if isinstance(e["cv"], float) else e["cv"])
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Stop("expression %s" % e["k"])
        return m(e)

    def e_lit(self, e):
        v = e["v"]
        return num(Fraction(repr(v)) if isinstance(v, float) else v)

    def e_arrcopy(self, e):
        return self.ev(e["e"])

    def e_binding(self, e):
        return self.ev(e["binding"])

    def decay(self, v, t):
        """arrays become pointers where a pointer is expected"""
        if isinstance(v, Cell) and isinstance(v.v, Arr) and unref(t).endswith("*"):
            return Ptr(arr=v.v, i=0)
        if isinstance(v, Arr) and unref(t).endswith("*"):
            return Ptr(arr=v, i=0)
        return v

    def e_null(self, e):
        return NULL

    def e_str(self, e):
        return Unknown("string")

    def e_this(self, e):
        return Ptr(cell=self.this())

    def this(self):
        t = self.frame.this
        if t is None:
            raise Stop("no this")
        return t

    def e_var(self, e):
        f = self.frame
        if e.get("id") in f.env:
            return f.env[e["id"]]
        if e.get("fn"):
            return FnRef(e["fn"])
        fr = f
        while fr is not None:
            if e.get("id") in fr.env:
                return fr.env[e["id"]]
            fr = fr.parent
        g = e.get("global")
        if g:
            c = self.globals.get(g)
            if c is None:
                c = self.globals[g] = Cell(self.sym(e.get("dt") or e["t"], g), g)
            return c
        return Cell(self.sym(e.get("dt") or e["t"], e.get("name", "var")), e.get("name"))

    def e_mem(self, e):
        if "cv" in e:
            return num(Fraction(str(e["cv"])) if isinstance(e["cv"], float) else e["cv"])
        b = self.ev(e["base"])
        o = self.rv(b)
        if e.get("arrow") or isinstance(o, Ptr):
            if isinstance(o, Ptr):
                b = o.target()
                o = self.rv(b)
        if isinstance(b, VCell) and all(isinstance(x.v, Obj) for _, x in b.alts):
            f = e.get("field") or e["name"]
            if b.alts[0][1].v.cls.startswith("std::pair"):
                f = f.split("::")[-1]
            return VCell(self, [(c, self.getf(x.v, f, e.get("dt") or e.get("t"))) for c, x in b.alts])
        if isinstance(o, Unknown) and isinstance(b, Cell):
            if not o.why.startswith("uninit"):
                raise Stop("member of %s" % o.why)
            o = Obj(unref(e["base"].get("t", "")))
            b.v = o
        if isinstance(o, Obj):
            f = e.get("field") or e["name"]
            if o.cls.startswith("std::pair"):
                f = f.split("::")[-1]
            return self.getf(o, f, e.get("dt") or e.get("t"))
        if o is NULL:
            self.null_at = self.outer * self.pc
        raise Stop("member %s of %r" % (e.get("name"), o))

    def e_idx(self, e):
        a = self.ev(e["a"])
        i = self.rv(self.ev(e["i"]))
        if isinstance(a, VCell) and all(isinstance(x.v, (Arr, Ptr)) for _, x in a.alts):
            return VCell(self, [(c, self.index(x.v, i, e)) for c, x in a.alts])
        a = self.rv(a)
        return self.index(a, i, e)

    def index(self, a, i, e):
        n = i.const() if isinstance(i, P) else None
        if isinstance(a, GPtr):
            return VCell(self, [(c, self.index(p, i, e)) for c, p in a.alts if p is not NULL])
        if isinstance(a, Ptr) and a.arr is not None:
            if n is not None:
                return Ptr(arr=a.arr, i=a.i + int(n)).target()
            a = a.arr
        if isinstance(a, Ptr) and n == 0:
            return a.target()
        if isinstance(a, Arr):
            if n is not None:
                return Ptr(arr=a, i=int(n)).target()
            if isinstance(i, P):
                return self.select(a, i)
        if isinstance(a, Obj) and a.path is not None:
            # element of an unknown sequence
            return Cell(self.sym(e.get("t", ""), "%s[%s]" % (a.path, i)))
        raise Stop("index of %r" % (a,))

    def select(self, a, i):
        """element with a conditional index"""
        if not a.c:
            raise OutOfRange("element of an empty sequence")
        if self.splitting and len(i.atoms()) == 1 and i.atoms() <= self.ints:
            at = next(iter(i.atoms()))
            vals = [n for n in range(33) if 0 <= poly.subst(i, lambda x: num(n) if x == at else None).const() < len(a.c)]
            raise Split(at, vals)
        return VCell(self, [(self.simplify(eq(i, num(n))), c) for n, c in enumerate(a.c)])

    def e_cast(self, e):
        v = self.ev(e["e"])
        t = unref(e.get("t", ""))
        ck = e.get("ck", "")
        if ck in ("FloatingToIntegral",):
            x = self.rv(v)
            if isinstance(x, P):
                return x if x.const() is not None and x.const().denominator == 1 else atom(("trunc", x))
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.truth(v)
        if e.get("reinterpret"):
            return Unknown("reinterpret_cast")
        if ck in ("ArrayToPointerDecay",):
            x = self.rv(v)
            if isinstance(x, Arr):
                return Ptr(arr=x, i=0)
        if ck == "LValueToRValue":
            return self.rv(v)
        return v

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            x = self.ev(e["e"])
            return Ptr(cell=x) if isinstance(x, Cell) else Unknown("address")
        if op == "*":
            x = self.rv(self.decay(self.ev(e["e"]), "*"))
            if isinstance(x, Ptr):
                return x.target()
            raise Stop("dereference of %r" % (x,))
        if op in ("++", "--"):
            c = self.ev(e["e"])
            old = self.rv(c)
            d = 1 if op == "++" else -1
            new = self.shift(old, d)
            if isinstance(c, Cell):
                self.set(c, new)
            return old if e.get("post") else c
        v = self.rv(self.ev(e["e"]))
        if op == "!":
            return ONE - self.truth(v)
        if op == "-" and isinstance(v, P):
            return -v
        if op == "+":
            return v
        return Unknown("unary " + op)

    def shift(self, v, d):
        if isinstance(v, P):
            return v + num(d)
        if isinstance(v, GPtr):
            alts = [(c, self.shift(p, d)) for c, p in v.alts]
            return GPtr(self, alts) if all(isinstance(p, Ptr) for _, p in alts) else Unknown("++")
        if isinstance(v, Ptr) and v.arr is not None:
            return Ptr(arr=v.arr, i=v.i + d)
        return Unknown("++")

    def worth(self, p):
        """the whole numbers a sum of conditions can be, each with its condition"""
        p = self.simplify(p)
        at = sorted(p.atoms(), key=repr)
        if not at or len(at) > 5 or any(x[0] not in ("lt0", "eq0", "bool") for x in at):
            return None
        out = {}
        for bits in range(1 << len(at)):
            v = {x: ONE if bits >> i & 1 else ZERO for i, x in enumerate(at)}
            n = poly.subst(p, v.get).const()
            if n is None or n.denominator != 1:
                return None
            c = ONE
            for x in at:
                c = c * (atom(x) if v[x] == ONE else ONE - atom(x))
            out[int(n)] = out.get(int(n), ZERO) + c
        out = {n: c for n, c in out.items() if self.pc * c != ZERO}
        return sorted(out.items()) if 0 < len(out) <= 12 else None

    def arith(self, op, a, b, t=""):
        a, b = self.rv(self.decay(a, "*")), self.rv(self.decay(b, "*"))
        if isinstance(a, P) and isinstance(b, P):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                ca, cb = a.const(), b.const()
                if unref(t) in NUMERIC - {"float", "double", "long double"} and unref(t):
                    if ca is not None and cb:
                        return num(int(ca / cb))
                    return atom(("idiv", a, b))
                return div(a, b)
            if op == "%":
                ca, cb = a.const(), b.const()
                return num(int(ca) % int(cb)) if ca is not None and cb else atom(("mod", a, b))
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return self.compare(op, a, b)
            if op in ("&", "|"):
                if all(poly._atoms[i][0] in poly.INDICATORS for x in (a, b) for k in x.m for i, _ in k):
                    return a * b if op == "&" else a + b - a * b
                return atom((op, a, b))
            return atom((op, a, b))
        if isinstance(a, GPtr) and isinstance(b, P) and op in ("+", "-") and b.const() is not None:
            return self.shift(a, int(b.const()) if op == "+" else -int(b.const()))
        if (isinstance(a, GPtr) or isinstance(b, GPtr)) and isinstance(a, (Ptr, Null)) and isinstance(b, (Ptr, Null)):
            r = ZERO
            for ca, pa in (a.alts if isinstance(a, GPtr) else [(ONE, a)]):
                for cb, pb in (b.alts if isinstance(b, GPtr) else [(ONE, b)]):
                    x = self.arith(op, pa, pb, t)
                    if not isinstance(x, P):
                        return Unknown("arith")
                    r = r + ca * cb * x
            return r
        if isinstance(a, Ptr) and isinstance(b, P) and op in ("+", "-") and a.arr is not None and b.const() is not None:
            n = int(b.const())
            return Ptr(arr=a.arr, i=a.i + (n if op == "+" else -n))
        if isinstance(a, Ptr) and isinstance(b, P) and op in ("+", "-"):
            w = self.worth(b)
            if w is None:
                self.apart(b)
            else:
                alts = {}
                for ca, x in (a.alts if isinstance(a, GPtr) else [(ONE, a)]):
                    for n, c in w:
                        y = self.shift(x, n if op == "+" else -n)
                        if not isinstance(y, Ptr):
                            return y
                        g = self.simplify(ca * c, here=False)
                        if g != ZERO:
                            alts[y.key()] = (alts[y.key()][0] + g if y.key() in alts else g, y)
                return GPtr(self, list(alts.values())) if len(alts) <= 12 else self.apart(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == "-" and a.arr is not None and a.arr is b.arr:
                return num(a.i - b.i)
            if op in ("==", "!="):
                def place(x):
                    return x.cell if x.arr is None else x.arr.c[x.i] if 0 <= x.i < len(x.arr.c) else None
                r = ONE if a.key() == b.key() or place(a) is not None and place(a) is place(b) else ZERO
                if r == ZERO:
                    ca = a.cell if a.arr is None else None
                    cb = b.cell if b.arr is None else None
                    if any(c is not None and (c.path or "").startswith(("each", "loop")) for c in (ca, cb)):
                        self.fresh += 1
                        r = atom(("bool", "loop same%d" % self.fresh))
                    elif ca is not None and cb is not None and ca.path and cb.path:
                        r = ONE if ca.path == cb.path else atom(("bool", "%s is %s" % tuple(sorted((ca.path, cb.path)))))
                return r if op == "==" else ONE - r
            if op in ("<", ">", "<=", ">=") and a.arr is not None and a.arr is b.arr:
                return self.compare(op, num(a.i), num(b.i))
        if op in ("==", "!=") and (a is NULL or b is NULL):
            r = ONE if a is NULL and b is NULL else ZERO
            o = b if a is NULL else a
            if isinstance(o, Unknown):
                self.fresh += 1
                r = atom(("bool", "null%d" % self.fresh))
            return r if op == "==" else ONE - r
        for x in (a, b):
            if isinstance(x, Unknown) and x.why.startswith("uninit"):
                return x
        if op in ("==", "!=", "<", ">", "<=", ">="):
            self.fresh += 1
            return atom(("bool", "cmp%d" % self.fresh))
        return Unknown("arith")

    def compare(self, op, a, b):
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return ONE - lt(b, a)
        if op == ">=":
            return ONE - lt(a, b)
        r = eq(a, b)
        return r if op == "==" else ONE - r

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.truth(self.ev(e["a"]))
            if op == "&&":
                if a == ZERO:
                    return ZERO
                return self.branch(a, lambda: self.truth(self.ev(e["b"])), lambda: ZERO)
            if a == ONE:
                return ONE
            return self.branch(a, lambda: ONE, lambda: self.truth(self.ev(e["b"])))
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        a = self.rv(self.ev(e["a"]))
        b = self.rv(self.ev(e["b"]))
        return self.arith(op, a, b, e.get("t", ""))

    def e_asg(self, e):
        v = self.rv(self.ev(e["b"]))
        c = self.ev(e["a"])
        if e["op"] != "=":
            v = self.arith(e["op"][:-1], c, v, e.get("t", ""))
        if isinstance(c, Cell):
            self.assign(c, self.copy(v))
        return c

    def e_cond(self, e):
        c = self.truth(self.ev(e["c"]))
        return self.branch(c, lambda: self.ev(e["a"]), lambda: self.ev(e["b"]))

    def e_lambda(self, e):
        caps = {}
        fr = self.frame
        for c in e.get("caps", []):
            if c.get("id") is not None and c.get("byref") is False and c["id"] in fr.env:
                caps[c["id"]] = Cell(self.copy(fr.env[c["id"]].v))
        return Lam(e["fn"], fr, fr.this, caps)

    def e_throw(self, e):
        self.rejected()
        self.frame.alive = False
        return Unknown("throw")

    def e_init(self, e):
        t = unref(e.get("t", ""))
        if len(e["elems"]) == 1 and e["elems"][0].get("k") not in ("init",) and unref(e["elems"][0].get("t", "")) == t and t in self.p.records:
            # initialised from a value of the same type: the value itself
            return self.ev(e["elems"][0])
        a = array_of(t)
        if a:
            if len(e["elems"]) == 1 and a[1] != 1 and t.startswith("std::array") and e["elems"][0]["k"] == "init":
                return self.ev(e["elems"][0])
            if t.startswith("std::array") and len(e["elems"]) == 1:
                x = self.rv(self.ev(e["elems"][0]))
                if isinstance(x, Arr):
                    return x
                return Arr([Cell(x)], t)
            cells = [Cell(self.copy(self.rv(self.ev(x)))) for x in e["elems"]]
            while len(cells) < a[1]:
                cells.append(Cell(self.zero(a[0])))
            return Arr(cells, t)
        if t in self.p.records:
            c = Cell(Obj(t))
            self.aggregate(e, c)
            return c.v
        if len(e["elems"]) == 1:
            return self.ev(e["elems"][0])
        if not e["elems"]:
            return self.zero(t)
        return Arr([Cell(self.copy(self.rv(self.ev(x)))) for x in e["elems"]], t)

    def aggregate(self, e, cell):
        o = cell.v
        r = self.p.records.get(unref(e.get("t", ""))) or self.p.records.get(o.cls)
        slots = []
        for b in r["bases"]:
            slots.append(("base", unref(b if isinstance(b, str) else b.get("type", ""))))
        for f in r["fields"]:
            slots.append((r["plain"] + "::" + f["name"], f["type"], f))
        es = e["elems"]
        for i, s in enumerate(slots):
            if s[0] == "base":
                if i < len(es):
                    x = es[i]
                    if x["k"] == "ctor":
                        self.construct(x, cell)
                    elif x["k"] == "init":
                        self.aggregate(x, cell)
                continue
            if i < len(es):
                if s[1].rstrip().endswith("&"):
                    x = self.ev(es[i])
                    o.f[s[0]] = x if isinstance(x, Cell) else Cell(x)
                else:
                    o.f[s[0]] = Cell(self.init_value(es[i], s[1]))
            else:
                d = s[2].get("init")
                o.f[s[0]] = Cell(self.init_value(d, s[1]) if d else self.zero(s[1]))

    def zero(self, t):
        t = unref(t)
        if t in NUMERIC:
            return ZERO
        if t.endswith("*"):
            return NULL
        a = array_of(t)
        if a:
            return Arr([Cell(self.zero(a[0])) for _ in range(a[1])], t)
        if t.startswith(SEQ):
            return Arr([], t)
        if t.startswith("std::optional"):
            o = Obj(t)
            o.f["has"], o.f["val"] = Cell(ZERO), Cell(Unknown("empty optional"))
            return o
        if t in self.p.records:
            o = Obj(t)
            for n, ft, f in self.fields(t):
                if f.get("init") is not None:
                    o.f[n] = Cell(self.init_value(f["init"], ft))
                else:
                    o.f[n] = Cell(self.zero(ft))
            return o
        if self.enum(t):
            return ZERO
        return Unknown("zero of " + t)

    # ---------------------------------------------------------------- calls
    def e_ctor(self, e):
        cls = unref(e.get("t") or e["callee"]["cls"])
        a = array_of(cls)
        if a and not cls.startswith("std::"):
            # every element is constructed
            return Arr([Cell(self.e_ctor(dict(e, t=a[0]))) for _ in range(a[1])], cls)
        c = Cell(Obj(cls))
        r = self.construct(e, c)
        return c.v if r is None else r

    def construct(self, e, cell):
        """runs a constructor on the object in cell; returns a value when the
        object is modelled as something else"""
        cal = e["callee"]
        cls = cal["cls"]
        args = e["args"]
        if e.get("copymove"):
            v = self.rv(self.ev(args[0]))
            if isinstance(v, Ptr) and not cls.startswith(DEREFS):
                v = v
            if isinstance(cell.v, Obj) and isinstance(v, Obj) and cell.v.cls != cls and v.cls != cell.v.cls:
                # copying a base part
                names = {n for n, _, _ in self.fields(cls)}
                for n in names:
                    if n in v.f or v.path is not None:
                        self.trail_new(cell.v, n)
                        self.set(cell.v.f[n], self.copy(self.getf(v, n).v))
                return None
            fn = self.p.functions.get(cal["fn"])
            if fn is not None and fn.get("body") and not fn.get("defaulted") and not fn.get("implicit") and not cls.startswith("std::"):
                self.call_fn(fn, cell, [self.ev(args[0])])
                return None
            if isinstance(v, Obj) and isinstance(cell.v, Obj) and not cell.v.f and cell.v.cls == v.cls:
                cell.v = self.copy(v)
                return None
            return self.copy(v)
        fn = self.p.functions.get(cal["fn"])
        if cls.startswith(("std::", "__gnu_cxx::")):
            return self.std_ctor(e, cls, args, cell)
        if fn is not None and (fn.get("body") or fn.get("inits")) and not self.opaque(fn):
            if e.get("zero") and not cell.v.f and fn.get("defaulted"):
                z = self.zero(cls)
                if isinstance(z, Obj):
                    for k, x in z.f.items():
                        if k not in cell.v.f:
                            cell.v.f[k] = x
                    if fn.get("body") is None:
                        return None
                    if all(f.get("init") is None for _, _, f in self.fields(cls)):
                        return None
            vals = self.args(fn, args)
            self.call_fn(fn, cell, vals)
            return None
        if not args:
            z = self.zero(cls) if e.get("zero") or (fn and fn.get("defaulted")) else None
            if isinstance(z, Obj) and isinstance(cell.v, Obj):
                for k, x in z.f.items():
                    if e.get("zero") or not isinstance(x.v, Unknown):
                        cell.v.f.setdefault(k, x)
            return None
        for a in args:
            self.ev(a)
        self.fresh += 1
        cell.v = Obj(cls, "new%d" % self.fresh)
        return None

    def std_ctor(self, e, cls, args, cell):
        t = unref(cls)
        a = array_of(t)
        if a and not args:
            return Arr([Cell(self.uninit(a[0]) if not e.get("zero") else self.zero(a[0])) for _ in range(a[1])], t)
        if t.startswith(SEQ):
            r = self.sequence(t, [self.ev(x) for x in args], args)
            if r is not None:
                return r
            return Obj(t, "std%d" % self.tick())
        if t.startswith("std::optional"):
            o = Obj(t)
            if not args or args[0].get("k") in ("null",) or "nullopt" in str(args[0].get("t", "")):
                o.f["has"], o.f["val"] = Cell(ZERO), Cell(Unknown("empty optional"))
            else:
                v = self.rv(self.ev(args[0]))
                if isinstance(v, Obj) and "has" in v.f and v.cls.startswith("std::optional"):
                    return self.copy(v)
                o.f["has"], o.f["val"] = Cell(ONE), Cell(self.copy(v))
            return o
        if t.startswith("std::ranges::subrange") and len(args) == 2:
            o = Obj(t)
            o.f["first"], o.f["last"] = [Cell(self.rv(self.decay(self.ev(x), "*"))) for x in args]
            return o
        if t.startswith("std::tuple") and args:
            return Arr([Cell(self.copy(self.rv(self.ev(x)))) for x in args], t)
        if t.startswith("std::pair") and len(args) == 2:
            o = Obj(t)
            o.f["first"], o.f["second"] = [Cell(self.copy(self.rv(self.ev(x)))) for x in args]
            return o
        if t.startswith("std::initializer_list") and len(args) == 1:
            return self.rv(self.ev(args[0]))
        if len(args) == 1:
            v = self.ev(args[0])
            if isinstance(self.rv(v), (Ptr, Lam, FnRef)):
                return self.rv(v)
            return self.copy(self.rv(v)) if isinstance(self.rv(v), (Arr,)) else Obj(t, "std%d" % self.tick())
        for x in args:
            self.ev(x)
        return Obj(t, "std%d" % self.tick())

    def sequence(self, t, args, nodes):
        """a container built from these arguments (allocators aside)"""
        a = [self.rv(x) for x in args]
        if len(a) >= 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].arr is not None and a[0].arr is a[1].arr:
            return Arr([Cell(self.copy(c.v)) for c in a[0].arr.c[a[0].i:a[1].i]], t)
        if a and isinstance(a[0], Arr):
            return Arr([Cell(self.copy(c.v)) for c in a[0].c], t)
        if a and isinstance(a[0], P) and a[0].const() is not None:
            n = int(a[0].const())
            if n > 64:
                return None
            if len(a) > 1 and unref(nodes[1].get("t", "")) == split_targs(t)[0]:
                return Arr([Cell(self.copy(a[1])) for _ in range(n)], t)
            return Arr([Cell(self.zero(split_targs(t)[0])) for _ in range(n)], t)
        if all(isinstance(x, (Obj, Unknown)) and "lloc" in unref(n.get("t", "")) for x, n in zip(a, nodes)):
            return Arr([], t)
        return None

    def element(self, t, args, nodes):
        """a value of type t built from constructor arguments"""
        if len(args) == 1 and (unref(nodes[0].get("t", "")) == t or t not in self.p.records):
            return self.copy(self.rv(args[0]))
        if t in self.p.records:
            fs = [f for f in self.p.functions.values() if f.get("ctor") and f.get("cls") == t and len(f["params"]) == len(args)
                  and f.get("body") and not f.get("copyctor") and not f.get("movector")]
            if len(fs) == 1:
                c = Cell(Obj(t))
                self.call_fn(fs[0], c, list(args))
                return c.v
        return None

    def seq_op(self, short, op, o, obj, args, a, e):
        t = o.cls
        et = split_targs(t)[0]
        nodes = e["args"]
        if short in ("insert", "emplace", "erase"):
            for x in a:
                if isinstance(x, GPtr):
                    self.apart(x.alts[0][0])
        if short in ("push_back", "emplace_back", "push_front", "emplace_front"):
            v = self.element(et, args, nodes)
            if v is None:
                return NotImplemented
            n = Cell(v)
            self.set(obj, Arr(o.c + [n] if "back" in short else [n] + o.c, t))
            return n if "emplace" in short else None
        if short in ("pop_back", "pop_front") and o.c:
            self.set(obj, Arr(o.c[:-1] if "back" in short else o.c[1:], t))
            return None
        if short == "clear":
            self.set(obj, Arr([], t))
            return None
        if short in ("reserve", "shrink_to_fit"):
            return None
        if short == "capacity":
            return None if False else NotImplemented
        if short == "resize" and isinstance(a[0], P) and a[0].const() is not None and a[0].const() <= 64:
            n = int(a[0].const())
            self.set(obj, Arr(o.c[:n] + [Cell(self.copy(a[1]) if len(a) > 1 else self.zero(et)) for _ in range(n - len(o.c))], t))
            return None
        if short == "assign" or short in ("insert", "emplace") and len(a) == 2 and isinstance(a[0], Ptr) and not isinstance(a[0], GPtr) and a[0].arr is o:
            if short == "assign":
                x = self.sequence(t, args, nodes)
                if x is None:
                    return NotImplemented
                self.set(obj, x)
                return None
            v = self.element(et, args[1:], nodes[1:])
            if v is None:
                return NotImplemented
            x = Arr(o.c[:a[0].i] + [Cell(v)] + o.c[a[0].i:], t)
            self.set(obj, x)
            return Ptr(arr=x, i=a[0].i)
        if short == "erase" and isinstance(a[0], Ptr) and not isinstance(a[0], GPtr) and a[0].arr is o:
            j = a[1].i if len(a) > 1 else a[0].i + 1
            x = Arr(o.c[:a[0].i] + o.c[j:], t)
            self.set(obj, x)
            return Ptr(arr=x, i=a[0].i)
        if op == "=" and isinstance(a[0], Arr):
            self.set(obj, Arr([Cell(self.copy(c.v)) for c in a[0].c], t))
            return obj
        if short == "get_allocator":
            return Obj(e.get("t", "alloc"), "alloc%d" % self.tick())
        return NotImplemented

    def method(self, cell, short, args=()):
        """calls a member function of the repository by name"""
        v = self.rv(cell)
        fs = [f for f in self.p.functions.values() if f.get("cls") == v.cls and f["name"].split("::")[-1] == short
              and len(f["params"]) == len(args) and f.get("body")] if isinstance(v, Obj) else []
        if len(fs) != 1:
            raise Stop("no single %s" % short)
        return self.call_fn(fs[0], cell, list(args))

    def at(self, it):
        v = self.rv(it)
        if isinstance(v, Ptr):
            return v.target()
        x = self.method(it, "operator*")
        return x if isinstance(x, Cell) else Cell(x)

    def same(self, it, end):
        a, b = self.rv(it), self.rv(end)
        if isinstance(a, Ptr):
            return self.truth(self.arith("==", a, b))
        return self.truth(self.method(it, "operator==", [end]))

    def find(self, it, end, pred):
        """std::find_if over a range of known length"""
        it = Cell(self.copy(self.rv(it)))
        n = [0]

        def go():
            def here():
                def more():
                    n[0] += 1
                    if n[0] > 12:
                        raise Stop("long search")
                    if isinstance(it.v, Ptr):
                        self.set(it, self.shift(it.v, 1))
                    else:
                        self.method(it, "operator++")
                    go()
                self.branch(self.truth(pred(self.at(it))), lambda: None, more)
            self.branch(self.same(it, end), lambda: None, here)
        go()
        return it.v

    def tick(self):
        self.fresh += 1
        return self.fresh

    def args(self, fn, nodes):
        out = []
        for i, n in enumerate(nodes):
            out.append(self.ev(n))
        return out

    def e_call(self, e):
        cal = e.get("callee")
        if cal is None:
            f = self.rv(self.ev(e["calleeExpr"])) if e.get("calleeExpr") else None
            args = [self.ev(a) for a in e["args"]]
            return self.call_value(f, args, e)
        name = cal["name"].replace("__gnu_cxx::", "std::")
        short = name.split("::")[-1]
        obj = self.ev(e["obj"]) if e.get("obj") is not None else None
        args = [self.ev(a) for a in e["args"]]
        if not self.frame.alive:
            return Unknown("dead")
        h = self.model.get(name)
        if h is not None:
            r = h(self, obj, args, e)
            if r is not NotImplemented:
                return r
        o = self.rv(obj) if obj is not None else None
        if isinstance(o, Lam) and short == "operator()":
            return self.call_value(o, args, e, cal["fn"])
        fn = self.p.functions.get(cal["fn"])
        if name.startswith("std::") and not (fn is not None and fn.get("body") and not self.is_std_file(fn)):
            return self.std(name, short, obj, args, e, cal)
        if fn is not None and fn.get("body") and not self.opaque(fn):
            virt = cal.get("virtual") and not e.get("qualified") and self.p.all_overriders(cal["fn"])
            if not virt:
                this = None
                if not cal.get("static") and obj is not None:
                    this = obj
                    if isinstance(o, Ptr) and (e.get("arrow") or not isinstance(obj, Cell) or not isinstance(o, Obj)):
                        this = o.target()
                    if not isinstance(this, Cell):
                        this = Cell(this)
                    if isinstance(this.v, Unknown) and this.v.why.startswith("uninit"):
                        this.v = Obj(cal["cls"])
                if fn.get("defaulted") and short == "operator=":
                    self.assign(this, self.copy(self.rv(args[0])))
                    return this
                return self.call_fn(fn, this, args, line=e["l"])
        if fn is not None and fn.get("defaulted") and short == "operator=" and isinstance(obj, Cell):
            self.assign(obj, self.copy(self.rv(args[0])))
            return obj
        return self.unknown_call(name, obj, args, e)

    def is_std_file(self, fn):
        return not fn["file"].startswith((__import__("facts").REPO, "/verif"))

    def unknown_call(self, name, obj, args, e):
        """result unknown; whatever may be written through is forgotten"""
        cal = e.get("callee") or {}
        self.calls.append((name, obj, args, e["l"], self.frame.fn.get("file")))
        fn = self.p.functions.get(cal.get("fn"))
        key = [self.key(obj)] if obj is not None else []
        key += [self.key(a) for a in args]
        pure = cal.get("const") or obj is None or cal.get("static")
        t = e.get("t", "")
        if fn is not None:
            for prm, a in zip(fn["params"], args):
                pt = prm["type"].rstrip()
                if pt.endswith(("&", "*")) and not pt.startswith("const ") and isinstance(a, Cell) and not isinstance(a.v, (Lam,)):
                    self.havoc(a)
                    pure = False
        for n, x in enumerate(args):
            v = self.rv(x)
            pt = fn["params"][n]["type"] if fn is not None and n < len(fn["params"]) else ""
            if isinstance(v, Ptr) and v.arr is not None and "const" not in pt:
                for c in v.arr.c:
                    self.havoc(c)
                pure = False
        if not pure and isinstance(obj, Cell):
            self.havoc(obj)
        path = "%s(%s)" % (name, ", ".join(key))
        if not pure:
            path += "#%d" % self.tick()
        v = self.sym(t, path) if t and t != "void" else Unknown("void")
        return Cell(v, path) if (cal.get("ret") or "").rstrip().endswith("&") else v

    def havoc(self, cell):
        v = cell.v
        if isinstance(v, Ptr):
            return
        self.set(cell, self.havoc_value(v, "after%d" % self.tick()))

    def key(self, x):
        v = self.rv(x)
        if isinstance(v, P):
            return poly.show(v, 4000)
        if isinstance(v, Obj):
            if v.path is not None and not v.f:
                return v.path
            return "{%s%s}" % ((v.path or v.cls), ",".join("%s=%s" % (k.split("::")[-1], self.key(c)) for k, c in sorted(v.f.items())))
        if isinstance(v, Arr):
            return "[%s]" % ",".join(self.key(c) for c in v.c)
        if isinstance(v, Ptr):
            if isinstance(v, GPtr):
                return "one of %s" % ", ".join("%s:%s" % (poly.show(c, 400), self.key(p)) for c, p in v.alts)
            if v.arr is not None and not 0 <= v.i < len(v.arr.c):
                return "%s+%d" % (self.key(v.arr), v.i)
            c = v.cell if v.arr is None else v.target()
            return c.path or self.key(c)
        if isinstance(v, Lam):
            return "lambda"
        return str(v)

    def call_value(self, f, args, e, fid=None):
        if isinstance(f, Ptr):
            f = self.rv(f.target())
        if isinstance(f, FnRef):
            fn = self.p.functions.get(f.fid)
            if fn and fn.get("body"):
                return self.call_fn(fn, None, args, line=e["l"])
            return self.unknown_call("?", None, args, e)
        if isinstance(f, Lam):
            fn = self.p.functions.get(fid or f.fn) or self.p.functions.get(f.fn)
            if fn is None or not fn.get("body"):
                raise Stop("lambda body")
            # captured variables are looked up in the frame that made it
            save = self.frame
            holder = Frame(fn, f.this, f.env)
            holder.env = dict(f.caps)
            mid = Frame(fn, f.this, holder)
            return self.call_lambda(fn, f, args, e)
        if isinstance(f, Obj):
            c = [q for q in self.p.functions.values() if q.get("cls") == f.cls and q["name"].endswith("operator()") and q.get("body")]
            if fid:
                c = [q for q in c if q["id"] == fid] or c
            if c:
                return self.call_fn(c[0], Cell(f), args, line=e["l"])
        self.calls.append(("?", f, args, e["l"], self.frame.fn.get("file")))
        t = e.get("t", "")
        return self.sym(t, "call%d" % self.tick()) if t and t != "void" else Unknown("void")

    def call_lambda(self, fn, f, args, e):
        outer = self.frame
        env = {}
        fr = f.env
        while fr is not None:
            for k, v in fr.env.items():
                env.setdefault(k, v)
            fr = fr.parent
        env.update(f.caps)
        host = Frame({"name": "<closure>", "params": [], "file": fn["file"], "ret": ""}, f.this, outer)
        host.env = env
        host.mark = outer.mark
        self.frame = host
        try:
            return self.call_fn(fn, f.this, args, line=e["l"])
        finally:
            self.frame = outer
            if not host.alive:
                outer.alive = False

    # ------------------------------------------------------ library model
    def std_compare(self, short, a):
        """comparisons of optionals and numbers, written or rewritten"""
        if len(a) != 2 or not short.startswith("operator"):
            return None
        full = [isinstance(x, Obj) and "has" in x.f for x in a]
        if short == "operator<=>" and (any(full) or all(isinstance(x, P) for x in a)):
            return Order(*a)
        if isinstance(a[0], Order):
            x, y = a[0].a, a[0].b
        elif isinstance(a[1], Order):
            y, x = a[1].a, a[1].b
        else:
            x, y = a
        full = [isinstance(q, Obj) and "has" in q.f for q in (x, y)]
        if not isinstance(a[0], Order) and not isinstance(a[1], Order) and not any(full):
            return None

        def part(q, f):
            if not f:
                return ONE, q
            v = q.f["val"].v
            return self.truth(q), v
        (hx, vx), (hy, vy) = part(x, full[0]), part(y, full[1])
        if not all(h == ZERO or isinstance(v, P) for h, v in ((hx, vx), (hy, vy))):
            return None
        both = hx * hy
        less = both * poly.lt(vx, vy) if both != ZERO else ZERO
        same = both * poly.eq(vx, vy) if both != ZERO else ZERO
        less = less + (ONE - hx) * hy
        same = same + (ONE - hx) * (ONE - hy)
        return {"operator<": less, "operator>": ONE - less - same, "operator<=": less + same, "operator>=": ONE - less,
                "operator==": same, "operator!=": ONE - same}.get(short)

    def std(self, name, short, obj, args, e, cal):
        o = self.rv(obj) if obj is not None else None
        a = [self.rv(x) for x in args]
        cls = cal.get("cls", "") or ""
        op = e.get("op")
        if name in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::launder"):
            return args[0]
        if name in ("std::addressof", "std::__addressof"):
            return Ptr(cell=args[0]) if isinstance(args[0], Cell) else Unknown("address")
        r = self.std_compare(short, ([o] if obj is not None else []) + a)
        if r is not None:
            return r
        if name == "std::get":
            i = re.sub(r"\D", "", (cal.get("targs") or "0").split(";")[0])
            x = a[0]
            if isinstance(x, Arr):
                return x.c[int(i)]
            if isinstance(x, Obj) and x.cls.startswith("std::pair"):
                return self.getf(x, "second" if i == "1" else "first")
        if name in ("std::max", "std::min") and len(a) == 2 and all(isinstance(x, P) for x in a):
            c = lt(a[0], a[1]) if short == "max" else lt(a[1], a[0])
            return ite(self.simplify(c), a[1], a[0])
        if name in ("std::max", "std::min") and len(a) == 1 and isinstance(a[0], Arr):
            r = a[0].c[0].v
            for x in a[0].c[1:]:
                r = ite(self.simplify(lt(r, x.v) if short == "max" else lt(x.v, r)), x.v, r)
            return r
        if short in ("abs", "fabs", "fabsf") and isinstance(a[0], P):
            n = self.simplify(lt(a[0], ZERO))
            return a[0] - (a[0] * n).scale(2)
        if short in ("sqrt", "sqrtf") and isinstance(a[0], P):
            return sqrt(a[0])
        if short in ("cos", "cosf") and isinstance(a[0], P):
            return cos(a[0])
        if short in ("sin", "sinf") and isinstance(a[0], P):
            return sin(a[0])
        if short == "isfinite":
            return ONE
        if short in ("pow", "powf") and isinstance(a[0], P) and isinstance(a[1], P) and a[1].const() is not None and a[1].const().denominator == 1 and 0 <= a[1].const() <= 6:
            return poly.powp(a[0], int(a[1].const()))
        if name == "std::clamp" and len(a) == 3 and all(isinstance(x, P) for x in a):
            return ite(self.simplify(lt(a[0], a[1])), a[1], ite(self.simplify(lt(a[2], a[0])), a[2], a[0]))
        if name == "std::swap" and all(isinstance(x, Cell) for x in args):
            x, y = self.copy(a[0]), self.copy(a[1])
            self.assign(args[0], y)
            self.assign(args[1], x)
            return None
        if isinstance(o, Arr) or (isinstance(obj, Cell) and isinstance(o, Unknown) and array_of(unref(cls))):
            if not isinstance(o, Arr):
                if not o.why.startswith("uninit"):
                    raise Stop("use of %s" % o.why)
                o = self.uninit(cls)
                obj.v = o
            if (o.cls or "").startswith(SEQ):
                r = self.seq_op(short, op, o, obj, args, a, e)
                if r is not NotImplemented:
                    return r
            if short in ("begin", "cbegin", "data"):
                return Ptr(arr=o, i=0)
            if short in ("end", "cend"):
                return Ptr(arr=o, i=len(o.c))
            if short == "size":
                return num(len(o.c))
            if short == "empty":
                return ONE if not o.c else ZERO
            if op == "[]" or short == "at":
                return self.index(o, a[0], e)
            if short == "front":
                return o.c[0]
            if short == "back":
                return o.c[-1]
            if short == "fill":
                for c in o.c:
                    self.assign(c, self.copy(a[0]))
                return None
            if op == "=":
                self.assign(obj, self.copy(a[0]))
                return obj
        if op in ("==", "!=") and len(a) == 2 and all(isinstance(x, Arr) for x in a):
            return self.arr_eq(a[0], a[1], op)
        if op in ("==", "!=") and isinstance(o, Arr) and a and isinstance(a[0], Arr):
            return self.arr_eq(o, a[0], op)
        if name in ("std::prev", "std::next") and isinstance(a[0], Ptr) and (len(a) < 2 or isinstance(a[1], P) and a[1].const() is not None):
            d = int(a[1].const()) if len(a) > 1 else 1
            return self.shift(a[0], d if short == "next" else -d)
        if name == "std::advance" and isinstance(a[0], Ptr) and isinstance(a[1], P) and a[1].const() is not None:
            self.set(args[0], self.shift(a[0], int(a[1].const())))
            return None
        if name == "std::distance" and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
            r = self.arith("-", a[1], a[0])
            if isinstance(r, P):
                return r
        if name == "std::exchange" and len(a) == 2 and isinstance(args[0], Cell):
            old = self.copy(a[0])
            self.assign(args[0], self.copy(a[1]))
            return old
        if name in ("std::find_if", "std::find_if_not", "std::find") and len(a) == 3:
            if short == "find":
                return self.find(args[0], args[1], lambda x: self.equal_values(x, args[2]))
            return self.find(args[0], args[1], lambda x: self.truth(self.call_value(a[2], [x], e)) if short == "find_if" else ONE - self.truth(self.call_value(a[2], [x], e)))
        if name == "std::reverse" and len(a) == 2 and isinstance(a[0], Ptr) and a[0].arr is not None and a[0].arr is a[1].arr:
            cs = a[0].arr.c[a[0].i:a[1].i]
            vs = [self.copy(c.v) for c in cs]
            for c, v in zip(cs, reversed(vs)):
                self.assign(c, v)
            return None
        if name in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size") and isinstance(a[0], Arr):
            return Ptr(arr=a[0], i=0) if "begin" in short else Ptr(arr=a[0], i=len(a[0].c)) if "end" in short else num(len(a[0].c))
        if isinstance(o, Obj) and "last" in o.f and (o.cls or "").startswith("std::ranges::subrange"):
            x, y = self.rv(o.f["first"]), self.rv(o.f["last"])
            if short in ("begin", "end"):
                return x if short == "begin" else y
            if short in ("size", "empty"):
                return self.arith("-" if short == "size" else "==", y, x, "long")
        if isinstance(o, Obj) and "has" in o.f:
            if short in ("has_value", "operator bool"):
                return o.f["has"].v
            if short == "value" or op in ("*", "->"):
                return o.f["val"] if op != "->" else Ptr(cell=o.f["val"])
            if short == "value_or":
                return self.join(o.f["has"].v, o.f["val"].v, a[0]) if o.f["has"].v != ONE else o.f["val"]
            if short == "reset":
                self.set(o.f["has"], ZERO)
                return None
            if op == "=" and args:
                if isinstance(a[0], Obj) and "has" in a[0].f:
                    self.assign(obj, self.copy(a[0]))
                elif "nullopt" in str((e["args"][-1] or {}).get("t", "")):
                    self.set(o.f["has"], ZERO)
                else:
                    self.set(o.f["has"], ONE)
                    self.set(o.f["val"], self.copy(a[0]))
                return obj
        if isinstance(o, Ptr):
            if short in ("get",) or op in ("->",):
                return o
            if op == "*":
                return o.target()
            if short == "operator bool":
                return ONE
            if op in ("++", "--"):
                new = self.shift(o, 1 if op == "++" else -1)
                if isinstance(obj, Cell):
                    self.set(obj, new)
                return o if e.get("post") or args else obj
        if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-") and (obj is not None and a or len(a) == 2):
            x = o if obj is not None else a[0]
            y = a[-1]
            if isinstance(x, (P, Ptr)) and isinstance(y, (P, Ptr)):
                return self.arith(op, x, y)
        if op == "=" and isinstance(obj, Cell) and args:
            self.assign(obj, self.copy(a[0]))
            return obj
        if short in ("lowest", "max", "min", "infinity", "epsilon", "quiet_NaN") and "numeric_limits" in name:
            return atom(("sym", name))
        r = self.std_algorithm(name, short, args, a, e)
        if r is not NotImplemented:
            return r
        return self.unknown_call(name, obj, args, e)

    def equal_values(self, x, y):
        a, b = self.rv(x), self.rv(y)
        if isinstance(a, (P, Ptr, Null)) and isinstance(b, (P, Ptr, Null)):
            return self.truth(self.arith("==", a, b))
        raise Stop("std::find over objects")

    def arr_eq(self, x, y, op):
        r = ONE
        for c, d in zip(x.c, y.c):
            q = self.arith("==", c.v, d.v)
            r = r * q if isinstance(q, P) else r
        return r if op == "==" else ONE - r

    def std_algorithm(self, name, short, args, a, e):
        def rng():
            if len(a) >= 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].arr is not None and a[0].arr is a[1].arr:
                return a[0].arr.c[a[0].i:a[1].i], 2
            if a and isinstance(a[0], Arr):
                return a[0].c, 1
            return None, 0
        if name in ("std::accumulate", "std::all_of", "std::any_of", "std::none_of", "std::for_each", "std::transform", "std::fill", "std::copy", "std::inner_product") or name.startswith("std::ranges::"):
            cells, n = rng()
            if cells is None:
                return NotImplemented
            if short == "accumulate":
                acc = a[n]
                for c in cells:
                    acc = self.rv(self.call_value(a[n + 1], [Cell(acc), c], e)) if len(a) > n + 1 else self.arith("+", acc, c.v)
                return acc
            if short == "for_each":
                for c in cells:
                    self.call_value(a[n], [c], e)
                return None
            if short in ("all_of", "any_of", "none_of"):
                r = ONE
                for c in cells:
                    t = self.truth(self.call_value(a[n], [c], e))
                    r = r * (t if short == "all_of" else ONE - t)
                return ONE - r if short == "any_of" else r
            if short == "fill":
                for c in cells:
                    self.assign(c, self.copy(a[n]))
                return None
            if short in ("copy",) and isinstance(a[n], Ptr) and a[n].arr is not None:
                d = a[n]
                for i, c in enumerate(cells):
                    self.assign(d.arr.c[d.i + i], self.copy(c.v))
                return Ptr(arr=d.arr, i=d.i + len(cells))
            if short == "transform" and isinstance(a[n], Ptr) and a[n].arr is not None:
                d = a[n]
                if len(a) == n + 2:
                    for i, c in enumerate(cells):
                        self.assign(d.arr.c[d.i + i], self.copy(self.rv(self.call_value(a[n + 1], [c], e))))
                    return Ptr(arr=d.arr, i=d.i + len(cells))
        return NotImplemented


def split_targs(t):
    i = t.index("<")
    s = t[i + 1:t.rindex(">")]
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            depth += 1
        if ch == ">":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out
