"""Algebraic laws over the repository's own functions.

/verif/laws/<name>.cpp states laws in terms of the public API (never compiled
to code, never run): laws::equal(a, b), laws::holds(c), laws::atLeastZero(x),
laws::given by throwing.  Each law is type-checked together with the current
source, and every repository function it reaches is translated, through the
resolved syntax tree, to values in a polynomial normal form (lib/algebra.py):
branches are joined, loops of unknown length are forgotten.  A law holds when
the normal form of its two sides coincides; it is violated when their
difference is a polynomial that does not vanish; anything else is undecided
and counted as such."""
import gc, math, multiprocessing, os, random, resource, signal, sys, time
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import facts, poly, algebra
from facts import AnalysisBroken, REPO, VERIF
from poly import P, ZERO, ONE
from algebra import Alg, Cell, Obj, Arr, Ptr, Unknown, Stop, NULL

sys.setrecursionlimit(20000)

EXPLANATION = (
    "Value-numbering dataflow: each law over the public functions is type-checked together with the current source, every repository "
    "function it reaches is translated through the resolved syntax tree to a polynomial normal form over symbolic inputs (branches joined "
    "with indicator factors, loops of unknown length forgotten), and the two sides of the law are compared as normal forms. An instance "
    "is one law for one choice of template arguments; instances listed as undecided in the notes are not counted as obligations.")
ASSUMPTIONS = ["arithmetic is exact (rounding is not modelled)", "library functions (sqrt, sin, cos, abs, min, max) mean what the standard says"]


def load(name):
    return facts.load_with(os.path.join(VERIF, "laws", name + ".cpp"))


# ------------------------------------------------------- deciding p == 0
def _solve(f):
    """f == 0 solved for a symbol that occurs linearly with a constant factor"""
    for k, v in f.m.items():
        if len(k) == 1 and k[0][1] == 1 and poly.kind(k[0][0]) == "sym":
            i = k[0][0]
            rest = f - P({k: v})
            if not any(i == j for m in rest.m for j, _ in m) and poly._atoms[i] not in rest.deep_atoms():
                return poly._atoms[i], rest.scale(-1 / v)
    return None


class Budget:
    def __init__(self, n):
        self.n = n


def proven_zero(p, assumed=(), budget=None):
    p = poly.assume(p, assumed)
    conds = [poly.assume(c, assumed) for c in assumed]
    return _pz(p, given_facts(assumed), conds, budget or Budget(600))


def proven_sign(p, assumed=(), known=lambda a: False, budget=None):
    p = poly.assume(p, assumed)
    conds = [poly.assume(c, assumed) for c in assumed]

    def leaf(p, fs):
        return sign_leaf(p, fs, known)
    return _pz(p, given_facts(assumed), conds, budget or Budget(900), leaf, known)


def given_facts(assumed):
    out = []
    for a, v in poly.forced(assumed).items():
        if a[0] == "lt0":
            out.append(("<" if v == ONE else ">=", a[1]))
        elif a[0] == "eq0":
            out.append(("==" if v == ONE else "!=", a[1]))
    return out


def sign_leaf(p, fs, known):
    """p >= 0 from the facts of one case"""
    if poly.is_zero(p):
        return True
    ge = []
    pos = set()
    for op, q in fs:
        if q.const() is not None:
            continue
        if op == "<":
            ge.append(-q)
        elif op == ">=":
            ge.append(q)
        elif op == "==":
            ge += [q, -q]
        # a symbol of known sign
        if op in (">=", "<") and len(q.m) == 1:
            (k, v), = q.m.items()
            if len(k) == 1 and k[0][1] == 1 and (v > 0) == (op == ">="):
                pos.add(poly._atoms[k[0][0]])
    def kn(a):
        if a in pos or known(a) or a[0] == "sqrt":
            return True
        return a[0] == "inv" and poly.mono_nonneg(a[1], kn)
    if poly.mono_nonneg(p, kn):
        return True
    g, rest = poly.content(p)
    if all(e % 2 == 0 or kn(poly._atoms[i]) for i, e in g) and poly.squares(rest):
        return True
    ge = sorted(set(ge), key=lambda q: (len(q.m), repr(q)))[:24]
    # p as a nonnegative combination of facts times known factors
    def combine(p, depth, start):
        if poly.mono_nonneg(p, kn) or poly.is_zero(p):
            return True
        if depth == 0:
            return False
        for n, q in enumerate(ge):
            for k, v in q.m.items():
                for pk, pv in p.m.items():
                    # factor pk / k must be a product of known atoms
                    d = dict(pk)
                    for i, e in k:
                        d[i] = d.get(i, 0) - e
                    d = {i: e for i, e in d.items() if e}
                    if not all(e % 2 == 0 or kn(poly._atoms[i]) or poly.kind(i) == "sqrt" for i, e in d.items()):
                        continue
                    r = pv / v
                    if r <= 0:
                        continue
                    f = P({tuple(sorted(d.items())): r})
                    rest = p - q * f
                    if len(rest.m) > len(p.m) + 2:
                        continue
                    if combine(rest, depth - 1, n):
                        return True
        return False
    if combine(p, 2, 0):
        return True
    return len(ge) <= 16 and len(p.m) <= 12 and all(len(q.m) <= 12 for q in ge) and poly.empty([(q, False) for q in ge] + [(-p, True)])


def contradictory(fs):
    """no valuation meets these (op, polynomial) constraints: constants, and
    sums of two or three of them"""
    lo = []           # (r, strict): r >= 0 or r > 0
    for op, q in fs:
        c = q.const()
        if c is not None:
            if op == "<" and c >= 0 or op == ">=" and c < 0 or op == "==" and c != 0 or op == "!=" and c == 0:
                return True
            continue
        if op == "<":
            lo.append((poly.canon(-q), True))
        elif op == ">=":
            lo.append((poly.canon(q), False))
        elif op == "==":
            lo.append((poly.canon(q), False))
            lo.append((poly.canon(-q), False))
    for op, q in fs:
        if op == "!=" and q.const() is None:
            a, b = poly.canon(q), poly.canon(-q)
            if any(p == a for p, _ in lo) and any(p == b for p, _ in lo):
                return True
    for i, (p, s) in enumerate(lo):
        for q, t in lo[i + 1:]:
            c = (p + q).const()
            if c is not None and (c < 0 or c == 0 and (s or t)):
                return True
            if len(lo) <= 8:
                for r, u in lo:
                    c = (p + q + r).const()
                    if c is not None and (c < 0 or c == 0 and (s or t or u)):
                        return True
    return len(lo) <= 24 and all(len(p.m) <= 12 for p, _ in lo) and poly.empty(lo)


def _deep_ind(p):
    return sorted((a for a in p.deep_atoms() if a[0] in poly.INDICATORS), key=repr)


def _pz(p, fs, conds, b, leaf=None, known=lambda a: False):
    if poly.is_zero(p):
        return True
    if b.n <= 0:
        return False
    b.n -= 1
    if any(c == ZERO for c in conds):
        return True
    ind = _deep_ind(p)
    if not ind:
        if leaf and leaf(p, fs):
            return True
        # equalities of this case
        eqs = [q for op, q in fs if op == "=="]
        lts = {q for op, q in fs if op == ">="}
        for q in lts:
            if any(poly.canon(-q) == poly.canon(r) for r in lts if r.m):
                eqs.append(q)
        for q in eqs:
            if q.m and len(q.m) == len(p.m):
                k = next(iter(p.m))
                if k in q.m and not (p - q.scale(p.m[k] / q.m[k])).m:
                    return True
            s = _solve(q) if q.m else None
            if s:
                a, val = s
                f = lambda x: val if x == a else None
                if _pz(poly.subst(p, f), [(o, poly.subst(q2, f)) for o, q2 in fs if q2 is not q], [poly.subst(c, f) for c in conds], b, leaf, known):
                    return True
        for op, q in fs:
            c = q.const()
            if c is not None and (op == "<" and c >= 0 or op == ">=" and c < 0 or op == "==" and c != 0 or op == "!=" and c == 0):
                return True
        # a strict fact against the others
        for n, (op, q) in enumerate(fs):
            if op == "<" and len(q.m) <= 40 and sign_leaf(q, fs[:n] + fs[n + 1:], known):
                return True
        ci = [i for c in conds for i in _deep_ind(c)]
        if ci:
            ind = ci[:1]
        else:
            return False
    a = ind[0]
    # innermost indicators first
    for x in ind:
        if not any(isinstance(y, P) and any(z[0] in poly.INDICATORS for z in y.deep_atoms()) for y in x[1:]):
            a = x
            break
    for val in (ONE, ZERO):
        f = lambda x: val if x == a else None
        extra = []
        if a[0] == "lt0":
            extra = [("<" if val is ONE else ">=", a[1])]
        elif a[0] == "eq0":
            extra = [("==" if val is ONE else "!=", a[1])]
        nf = [(o, poly.subst(q, f)) for o, q in fs] + extra
        if contradictory(nf):
            continue
        if not _pz(poly.subst(p, f), nf, [poly.subst(c, f) for c in conds], b, leaf, known):
            return False
    return True


# --------------------------------------------- valuations of a normal form
class Opaque(Exception):
    pass


class Infeasible(Exception):
    pass


def value(p, env, memo):
    if id(p) in memo:
        return memo[id(p)][0]
    t = 0.0
    for k, c in p.m.items():
        x = float(c)
        # conditions first: what they guard need not be defined
        for i, e in sorted(k, key=lambda ie: poly.kind(ie[0]) not in poly.INDICATORS):
            if x == 0.0:
                break
            v = atom_value(i, env, memo)
            if v == 0.0 and e < 0:
                raise Infeasible()
            x *= v ** e
        t += x
    memo[id(p)] = (t, p)
    return t


def atom_value(i, env, memo):
    key = ("a", i)
    if key in memo:
        return memo[key]
    a = poly._atoms[i]
    k = a[0]
    if k == "sym":
        n = a[1]
        if n.startswith(("loop", "unknown")) or "(" in n:
            raise Opaque(n)
        if n not in env:
            env[n] = env["*"](n)
        r = env[n]
    elif k == "bool":
        n = a[1]
        if n.startswith(("loop", "unknown", "cmp", "null")) or "(" in n:
            raise Opaque(n)
        if n not in env:
            env[n] = float(env["?"](n))
        r = env[n]
    elif k == "lt0":
        r = 1.0 if value(a[1], env, memo) < -1e-12 else 0.0
    elif k == "eq0":
        r = 1.0 if abs(value(a[1], env, memo)) < 1e-12 else 0.0
    elif k == "inv":
        d = value(a[1], env, memo)
        if d == 0:
            raise Infeasible()
        r = 1 / d
    elif k == "sqrt":
        d = value(a[1], env, memo)
        if d < 0:
            if d > -1e-9:
                d = 0.0
            else:
                raise Infeasible()
        r = math.sqrt(d)
    elif k == "cos":
        r = math.cos(value(a[1], env, memo))
    elif k == "sin":
        r = math.sin(value(a[1], env, memo))
    elif k == "trunc":
        r = float(math.trunc(value(a[1], env, memo)))
    elif k == "round":
        d = value(a[1], env, memo)
        r = math.copysign(math.floor(abs(d) + 0.5), d)
    elif k in ("idiv", "mod"):
        x, y = value(a[1], env, memo), value(a[2], env, memo)
        if x != int(x) or y != int(y) or y == 0:
            raise Infeasible()          # whole numbers only
        r = float(math.trunc(x / y)) if k == "idiv" else math.fmod(x, y)
    elif k == "app":
        ins = tuple(round(value(x, env, memo), 5) + 0.0 for x in a[3:])
        r = random.Random(repr((a[1], a[2], ins))).choice((0.0, 1.0, 2.5, 0.75, -1.0, -3.0, 0.2))
    else:
        raise Opaque(k)
    memo[key] = r
    return r


GRID = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 0.25, 5.0, -4.0]


def sample(rnd):
    mode = rnd.random()

    def num(n):
        if mode < 0.35:
            return rnd.choice(GRID)
        if mode < 0.5:
            return rnd.choice(GRID[:5])
        return rnd.uniform(-3, 3)
    return {"*": num, "?": lambda n: rnd.random() < 0.5}


def refuted(p, assumed=(), kind="zero", domain=None, tries=400):
    """a valuation of the inputs, consistent with the preconditions, at which
    the normal form p is not zero (or negative): a description, else None.
    Raises Opaque when p depends on something the analysis did not follow."""
    rnd = random.Random(7)
    feasible = 0
    for n in range(tries):
        env = sample(rnd)
        if domain:
            domain(env, rnd)
        memo = {}
        try:
            if any(abs(value(c, env, memo) - 1) > 1e-9 for c in assumed):
                continue
            v = value(p, env, memo)
        except Infeasible:
            continue
        except OverflowError:
            continue
        feasible += 1
        # rounding of this evaluation itself
        scale = 1.0
        for k, c in p.m.items():
            t = abs(float(c))
            for i, e in k:
                x = abs(atom_value_safe(i, env, memo))
                if x == 0.0:
                    t = 0.0
                    break
                t *= x ** e
            scale = max(scale, t)
        if kind == "zero" and abs(v) > 1e-7 * scale or kind == "sign" and v < -1e-7 * scale:
            return ", ".join("%s=%g" % (k, x) for k, x in sorted(env.items()) if k not in "*?")[:200] + " gives %g" % v
    return None


def atom_value_safe(i, env, memo):
    try:
        return atom_value(i, env, memo)
    except (Infeasible, Opaque):
        return 0.0


# ------------------------------------------------------------- evaluation
def leaves(a, v, name=""):
    v = v.v if isinstance(v, Cell) else v
    if isinstance(v, P):
        yield name, v
    elif isinstance(v, Arr):
        for i, c in enumerate(v.c):
            yield from leaves(a, c, "%s[%d]" % (name, i))
    elif isinstance(v, Obj):
        if "has" in v.f:
            yield name + ".has", v.f["has"].v
            yield from leaves(a, v.f["val"], name + ".val")
            return
        fs = [n for n, _, _ in a.fields(v.cls)] or list(v.f)
        for n in fs:
            yield from leaves(a, a.getf(v, n), name + "." + n.split("::")[-1])
    elif isinstance(v, Unknown) and v.why.startswith("uninit"):
        yield name, v
    else:
        raise Stop("value %s is not numeric: %r" % (name, v))


class LawAlg(Alg):
    def __init__(self, prog, **k):
        super().__init__(prog, **k)
        self.uninterpreted = frozenset()
        self.replaced = {}    # function -> the law file's function that stands for it
        self.splitting = True
        self.claims = []      # (kind, name, polynomial, line)
        self.subjects = []
        self.model.update({
            "laws::equal": LawAlg.m_equal, "laws::holds": LawAlg.m_holds,
            "laws::atLeastZero": LawAlg.m_nonneg, "laws::given": LawAlg.m_given,
            "laws::gradient": LawAlg.m_gradient, "laws::rejected": LawAlg.m_rejected})

    def m_equal(self, obj, args, e):
        x = dict(leaves(self, args[0]))
        y = dict(leaves(self, args[1]))
        if sorted(x) != sorted(y):
            raise Stop("shapes differ")
        for n in x:
            if self.assigned(n, x[n], e) and self.assigned(n, y[n], e):
                self.claims.append(("zero", n, self.pc * (x[n] - y[n]), e["l"]))
        return Unknown("void")

    def assigned(self, n, v, e):
        v = self.rv(v)
        if not (isinstance(v, Unknown) and v.why.startswith("uninit")):
            return True
        if self.loops_forgotten:
            raise Stop("value of %s after a loop" % n)
        self.claims.append(("never", n, self.pc, e["l"]))
        return False

    def plain(self, v):
        try:
            return all(isinstance(p, P) for _, p in leaves(self, v))
        except Stop:
            return False

    def application(self, fn, this, args):
        """a function of which only the inputs and the type of the result are
        looked at"""
        ins = []
        for x in ([this] if this is not None else []) + list(args):
            x = x.v if isinstance(x, Cell) else x
            if isinstance(x, Obj) and x.path and not self.plain(x):
                ins.append(poly.atom(("sym", "&" + x.path)))      # an input that nothing changes
            else:
                ins += [p for _, p in leaves(self, x)]
        out = self.zero(algebra.unref(fn.get("ret") or ""))
        n = 0

        def fill(v):
            nonlocal n
            if isinstance(v, P):
                n += 1
                return poly.atom(("app", fn["name"], n) + tuple(ins))
            if isinstance(v, Arr):
                for c in v.c:
                    c.v = fill(c.v)
            elif isinstance(v, Obj):
                for k, _, _ in self.fields(v.cls):
                    c = v.f.get(k)
                    if c is not None:
                        c.v = fill(c.v)
            return v
        return fill(out)

    def m_gradient(self, obj, args, e):
        """gradient(value, jacobian, x...): row i, column k of the jacobian is
        the derivative of value[i] by the k-th x"""
        val = [p for _, p in leaves(self, args[0])]
        J = [p for _, p in leaves(self, args[1])]
        xs = []
        for a in args[2:]:
            q = self.rv(a)
            at = q.atoms() if isinstance(q, P) else set()
            if len(at) != 1 or q != poly.atom(next(iter(at))):
                raise Stop("not a symbol: %r" % (q,))
            xs.append(next(iter(at)))
        if len(J) != len(val) * len(xs):
            raise Stop("jacobian of %d, %d values" % (len(J), len(val)))
        # values on a thin set (two quantities exactly equal) say nothing of the slope
        def thick(a):
            return ZERO if a[0] == "eq0" and any(x in a[1].deep_atoms() for x in xs) else None
        val, J = [poly.subst(v, thick) for v in val], [poly.subst(j, thick) for j in J]
        for i, v in enumerate(val):
            for k, x in enumerate(xs):
                self.claims.append(("zero", "row %d column %d" % (i, k), self.pc * (poly.diff(v, x) - J[i * len(xs) + k]), e["l"]))
        return Unknown("void")

    def m_holds(self, obj, args, e):
        if not self.assigned("", args[0], e):
            return Unknown("void")
        self.claims.append(("zero", "", self.pc * (ONE - self.truth(args[0])), e["l"]))
        return Unknown("void")

    def m_rejected(self, obj, args, e):
        """the call throws when the condition is met and only then"""
        bad, f = self.truth(args[0]), self.rv(args[1])
        if not isinstance(f, algebra.Lam):
            raise Stop("not a lambda")
        marks = [len(self.calls), len(self.events), len(self.assumed), len(self.loops_forgotten)]
        m, facts, pc, outer, throws, fr = len(self.trail), dict(self.facts), self.pc, self.outer, self.throws, self.frame
        self.pc, self.outer, self.throws = ONE, ONE, []
        try:
            self.call_lambda(self.p.functions[f.fn], f, [], e)
            ok = ONE
            for t, loops in self.throws:
                if loops > marks[3]:
                    raise Stop("a loop before the rejection")
                ok = ok * (ONE - t)
        except Stop:
            if self.null_at != ONE:
                raise
            ok = Unknown("null")
        finally:
            self.roll(m)
            self.facts, self.pc, self.outer, self.throws, self.frame = facts, pc, outer, throws, fr
            fr.alive = True
            del self.calls[marks[0]:], self.events[marks[1]:], self.assumed[marks[2]:], self.loops_forgotten[marks[3]:]
        if not isinstance(ok, P):
            self.claims.append(("zero", "null is dereferenced before it is rejected", self.pc, e["l"]))
            return Unknown("void")
        self.claims.append(("zero", "", self.pc * (ONE - ok - bad), e["l"]))
        return Unknown("void")

    def m_nonneg(self, obj, args, e):
        v = self.rv(args[0])
        if not self.assigned("", v, e):
            return Unknown("void")
        if not isinstance(v, P):
            raise Stop("not numeric: %r" % (v,))
        self.claims.append(("sign", "", self.pc * v, e["l"]))
        return Unknown("void")

    def m_given(self, obj, args, e):
        c = self.truth(args[0])
        if self.pc == ONE and len(c.m) == 1 and len(c.atoms()) == 1 and c.const() is None:
            a = next(iter(c.atoms()))
            if a[0] == "eq0":
                s = _solve(a[1])
                if s and s[0] in self.ints and s[1].const() is not None:
                    raise algebra.Split(s[0], [s[1].const()])
        self.assume(c, self.pc)
        return Unknown("void")

    def call_fn(self, fn, this, args, argnodes=None, line=0):
        if fn["name"] in self.uninterpreted:
            return self.application(fn, this, args)
        if fn["name"] in self.replaced:
            r = self.p.fn(self.replaced[fn["name"]])
            return super().call_fn(r, None, ([this] if this is not None else []) + list(args), None, line)
        if self.frame is not None and self.frame.fn.get("law") and fn["file"].startswith(REPO) and not fn.get("ctor"):
            if fn not in self.subjects:
                self.subjects.append(fn)
        return super().call_fn(fn, this, args, argnodes, line)


def law_functions(prog, prefix="law_"):
    out = []
    for f in prog.functions.values():
        if f["name"].startswith("laws::" + prefix) and "::" not in f["name"][6:] and f.get("body"):
            out.append(f)
    return sorted(out, key=lambda f: (f["line"], f["id"]))


def title(f):
    return f["name"].split("::")[-1].split("_", 1)[1]


def where(fns):
    fns = [f for f in fns if "line" in f and "file" in f]
    for f in fns:
        n = f["name"].split("::")[-1]
        if n not in ("operator()", "operator[]", "begin", "end", "size") or len(fns) == 1:
            return "%s:%s %s" % (f["file"].replace(REPO + "/", ""), f["line"], f["name"])
    return "%s:%s %s" % (fns[0]["file"].replace(REPO + "/", ""), fns[0]["line"], fns[0]["name"]) if fns else ""


def decide(prog, f, known, domain, setup, opaque, tries, uninterpreted, replaced):
    """one law -> (instance, status, message, subjects, inlined ids); status:
    True holds, False violated, None undecided.  Integer inputs that select a
    part of a value are looked at one value at a time."""
    f["law"] = True
    inst = "%s(%s)" % (title(f), ", ".join(q["type"].replace("simu::", "").replace("const ", "").rstrip("& ") for q in f["params"]))
    t0 = time.time()
    todo, inl, subj, n, last = [{}], set(), [], 0, (True, "")
    while todo:
        pins = todo.pop()
        n += 1
        if n > 256:
            return inst, None, last[1] or "too many cases", [], inl
        try:
            apart = []
            st, msg, s = decide_case(prog, f, known, domain, setup, opaque, tries, uninterpreted, replaced, pins, inl, inst, apart)
        except algebra.Split as sp:
            if sp.atom in pins:
                return inst, None, "splits twice", [], inl
            for v in reversed(sp.values):
                todo.append(pins | {sp.atom: poly.num(v)})
            continue
        subj = subj or s
        if st is False:
            if any(k[0] == "sym" for k in pins):
                msg += " (%s)" % ", ".join("%s = %s" % (k[1], v) for k, v in pins.items() if k[0] == "sym")
            return inst, False, msg, s, inl
        if st is None:
            x = [x for x in apart if x not in pins]
            if os.environ.get("LAWS_DEBUG"):
                print("apart", inst, len(pins), [poly.show(poly.atom(y), 200) for y in apart], msg, flush=True)
            if x and n < 256 and time.time() - t0 < 90:
                todo += [pins | {x[0]: poly.ZERO}, pins | {x[0]: poly.ONE}]
                continue
            last = (None, msg)
    return inst, last[0], last[1], subj, inl


def decide_case(prog, f, known, domain, setup, opaque, tries, uninterpreted, replaced, pins, inl, inst, apart):
    kw = {"opaque": opaque} if opaque else {}
    t0 = time.time()
    a = LawAlg(prog, **kw)
    a.pins = pins
    a.uninterpreted = uninterpreted
    a.replaced = replaced
    a.inlined = inl
    a.unjoined = apart
    for x, v in pins.items():
        if x[0] != "sym":
            a.assume(poly.atom(x) if v == poly.ONE else poly.ONE - poly.atom(x), poly.ONE)
    if setup:
        setup(a, f)
    try:
        args = [Cell(a.sym(q["type"], q["name"]), q["name"]) for q in f["params"]]
        a.run(f, None, args)
    except algebra.OutOfRange as ex:
        if a.pc == ONE and a.outer == ONE and not a.loops_forgotten and not getattr(a, "in_unroll", 0):
            return False, "reads %s" % ex, ([a.frame.fn] if a.frame and a.frame.fn.get("file", "").startswith(REPO) else []) + a.subjects
        return None, "OutOfRange %s" % ex, []
    except (Stop, poly.TooBig, RecursionError) as ex:
        if os.environ.get("LAWS_TRACE"):
            import traceback; [print(t.tb_frame.f_locals["fn"]["name"], flush=True) for t in _tbs(ex) if t.tb_frame.f_code.co_name == "run_fn" or "fn" in t.tb_frame.f_locals and isinstance(t.tb_frame.f_locals["fn"], dict)]; [print("line", t.tb_frame.f_locals["s"].get("l")) for t in _tbs(ex) if t.tb_frame.f_code.co_name == "stmt"]
        return None, "%s %s" % (type(ex).__name__, ex), []
    t1 = time.time()
    st, msg = judge(a, known, domain, tries)
    if st is None and os.environ.get("LAWS_TRACE"):
        print("LOOPS", [(s["l"], poly.show(c, 300)) for s, c in a.loop_conds], [(poly.show(poly.atom(k), 60), str(v)) for k, v in pins.items()], flush=True)
    if os.environ.get("LAWS_DEBUG") and time.time() - t0 > 2:
        print("slow %.1fs (evaluated in %.1fs, %d claims, %d terms) %s" % (
            time.time() - t0, t1 - t0, len(a.claims), max([0] + [len(c[2].m) for c in a.claims]), inst), flush=True)
    return st, msg, a.subjects


def judge(a, known, domain, tries):
    assumed = list(a.assumed)
    st, msg = True, ""
    if not a.claims:
        return None, "no claim reached"
    for kind, n, p, line in a.claims:
        if kind == "never":
            if p == ONE:
                return False, "%s is never assigned" % (n.strip(".") or "the result")
            st, msg = None, "a value may be unassigned"
            continue
        try:
            if kind == "zero" and proven_zero(p, assumed):
                continue
            if kind == "sign" and proven_sign(p, assumed, known or (lambda x: False)):
                continue
            r = refuted(p, assumed, kind, domain, tries)
        except Opaque as ex:
            st, msg = None, "depends on %s" % ex
            continue
        except poly.TooBig as ex:
            st, msg = None, "too big"
            continue
        if r:
            return False, "%s%s, e.g. %s; residue %s" % (
                n.strip("."), " differs" if kind == "zero" else " can be negative", r, poly.show(poly.assume(p, assumed), 160))
        st, msg = None, "line %d neither proven nor refuted: %s" % (line, poly.show(p, 160))
    return st, msg


_job = None
STARTED = time.time()


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def _work(i):
    prog, fns, opt = _job
    f = fns[i]

    def late(*_):
        raise Stop("takes too long")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(4, int(min(150, STARTED + 600 - time.time()))))
    try:
        inst, st, msg, subj, inl = decide(prog, f, *opt)
        subj = where(subj)
    except (Stop, MemoryError) as ex:
        inst, st, msg, subj, inl = title(f), None, str(ex) or "out of memory", "", ()
    except Exception as ex:
        if os.environ.get("LAWS_DEBUG"):
            raise
        inst, st, msg, subj, inl = title(f), None, "internal error %s %s" % (type(ex).__name__, ex), "", ()
    finally:
        signal.alarm(0)
    return i, inst, st, msg, subj, list(inl)


def check(rep, name, floor=0, prefix="law_", known=None, domain=None, setup=None, opaque=None, tries=400, uninterpreted=(), replaced=None):
    global _job
    prog = load(name)
    fns = law_functions(prog, prefix)
    undecided = ["%s: does not type-check on the current interface" % d for d in getattr(prog, "dropped", [])]
    _job = (prog, fns, (known, domain, setup, opaque, tries, frozenset(uninterpreted), replaced or {}))
    jobs = int(os.environ.get("LAW_JOBS", "8"))
    if jobs > 1 and len(fns) > 1:
        gc.freeze()
        with ProcessPoolExecutor(min(jobs, len(fns)), multiprocessing.get_context("fork"), initializer=_limit) as pool:
            futures = [pool.submit(_work, i) for i in range(len(fns))]
            res = []
            for i, x in enumerate(futures):
                try:
                    res.append(x.result())
                except BrokenProcessPool:
                    res.append((i, title(fns[i]), None, "the analysis ran out of memory", "", []))
    else:
        res = [_work(i) for i in range(len(fns))]
    seen = set()
    for i, inst, st, msg, subj, inl in res:
        f = fns[i]
        rule = title(f).split("__")[0].replace("_", "-")
        if st is None:
            undecided.append("%s: %s" % (inst, msg))
            continue
        for fid in inl:
            if fid not in seen and prog.functions[fid]["file"].startswith(REPO):
                seen.add(fid)
                rep.analysed(prog.functions[fid])
        while inst in rep.obligations.get(rule, []):
            inst += "'"
        rep.ok(rule, inst)
        if st is False:
            rep.bad(rule, subj or "laws/%s.cpp:%s" % (name, f["line"]), "law %s: %s" % (inst, msg), key="%s|%s" % (rule, inst))
    decided = sum(len(v) for v in rep.obligations.values())
    for u in undecided:
        rep.notes.append("undecided: " + u[:300])
    if os.environ.get("LAWS_DEBUG"):
        for u in undecided:
            print("undecided", u[:300])
    if decided < floor:
        raise AnalysisBroken("only %d laws decided, %d expected: %s" % (decided, floor, "; ".join(undecided)[:600]))
    return prog


def _tbs(ex):
    t = ex.__traceback__
    while t is not None:
        yield t
        t = t.tb_next
