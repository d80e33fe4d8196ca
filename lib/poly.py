"""Polynomials with rational coefficients over symbolic atoms: the value
domain of lib/algebra.py.

Atoms are hashable tuples.  Truth values are polynomials too: an undecided
comparison is an indicator atom i with i*i = i, so that

    c ? a : b   is   b + c*(a - b)
    !c          is   1 - c

which gives conditional values a normal form.  1/x of a single monomial uses a
negative exponent, of a longer polynomial the atom ("inv", x)."""
from fractions import Fraction

_ids = {}
_atoms = []


def aid(a):
    i = _ids.get(a)
    if i is None:
        i = _ids[a] = len(_atoms)
        _atoms.append(a)
    return i


INDICATORS = ("lt0", "eq0", "bool")
LIMIT = 6000


class TooBig(Exception):
    pass


class P:
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.m == o.m

    def const(self):
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        if len(self.m) < len(o.m):
            self, o = o, self
        m = dict(self.m)
        for k, v in o.m.items():
            s = m.get(k, 0) + v
            if s:
                m[k] = s
            else:
                m.pop(k, None)
        return P(m)

    def __neg__(self):
        return P({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.m) * len(o.m) > LIMIT * 4:
            raise TooBig()
        out = {}
        extra = None
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k, special = mono_mul(k1, k2)
                if special is None:
                    s = out.get(k, 0) + v1 * v2
                    if s:
                        out[k] = s
                    else:
                        out.pop(k, None)
                else:
                    t = special * P({(): v1 * v2})
                    extra = t if extra is None else extra + t
        r = P(out)
        return r if extra is None else r + extra

    def scale(self, c):
        return P({k: v * c for k, v in self.m.items()}) if c else P({})

    def atoms(self):
        out = set()
        for k in self.m:
            for i, _ in k:
                out.add(_atoms[i])
        return out

    def deep_atoms(self):
        out, todo = set(), list(self.atoms())
        while todo:
            a = todo.pop()
            if a in out:
                continue
            out.add(a)
            for x in a[1:]:
                stack = [x]
                while stack:
                    y = stack.pop()
                    if isinstance(y, P):
                        todo.extend(y.atoms())
                    elif isinstance(y, tuple):
                        stack.extend(y)
        return out


ZERO, ONE = P({}), P({(): Fraction(1)})


def num(c):
    c = Fraction(c)
    return P({(): c}) if c else ZERO


def atom(a):
    return P({((aid(a), 1),): Fraction(1)})


def kind(i):
    return _atoms[i][0]


def mono_mul(a, b):
    """product of two monomials: (monomial, None) or (None, polynomial)"""
    if not a:
        return b, None
    if not b:
        return a, None
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    special = None
    for i in list(d):
        e = d[i]
        if e == 0:
            del d[i]
            continue
        k = kind(i)
        if k in INDICATORS:
            if e != 1:
                d[i] = 1
        elif k == "sqrt" and e >= 2:
            del d[i]
            f = powp(_atoms[i][1], e // 2)
            if e % 2:
                d[i] = 1
            special = f if special is None else special * f
        elif k == "sin" and e >= 2:
            # sin^2 = 1 - cos^2
            del d[i]
            c = atom(("cos", _atoms[i][1]))
            f = powp(ONE - c * c, e // 2)
            if e % 2:
                d[i] = 1
            special = f if special is None else special * f
    # mutually exclusive indicators
    lts = [i for i in d if kind(i) == "lt0"]
    for i in lts:
        q = _atoms[i][1]
        n = _ids.get(("lt0", canon(-q)))
        if n is not None and n in d:
            return None, ZERO
        e = _ids.get(("eq0", eqcanon(q)))
        if e is not None and e in d:
            return None, ZERO
    es = [i for i in d if kind(i) == "eq0"]
    for n, i in enumerate(es):
        for j in es[n + 1:]:
            c = (_atoms[i][1] - _atoms[j][1]).const()
            if c is not None and c != 0:
                return None, ZERO
    k = tuple(sorted(d.items()))
    if special is None:
        return k, None
    return None, special * P({k: Fraction(1)})


def powp(p, n):
    r = ONE
    for _ in range(n):
        r = r * p
    return r


def lead(p):
    return min(p.m.items(), key=lambda kv: (kv[0] == (), kv[0]))[1]


def canon(p):
    """up to a positive factor"""
    c = abs(lead(p)) if p.m else 1
    return p if c == 1 else p.scale(1 / c)


def eqcanon(p):
    c = lead(p) if p.m else 1
    return p if c == 1 else p.scale(1 / c)


def content(p):
    """(common monomial, rest) of a polynomial with several terms"""
    ks = iter(p.m)
    com = {i: e for i, e in next(ks) if e > 0 and kind(i) not in INDICATORS}
    for k in ks:
        if not com:
            break
        d = dict(k)
        com = {i: min(e, d[i]) for i, e in com.items() if d.get(i, 0) > 0}
    if not com:
        return (), p
    g = tuple(sorted(com.items()))
    m = {}
    for k, v in p.m.items():
        d = dict(k)
        for i, e in g:
            d[i] -= e
        m[tuple(sorted((i, e) for i, e in d.items() if e))] = v
    return g, P(m)


def squares(p):
    """p as a sum of positive multiples of squares of linear forms, or None"""
    if not p.m or len(p.m) > 40:
        return None
    ids = set()
    for k in p.m:
        if sum(e for _, e in k) != 2 or any(e < 0 or kind(i) in INDICATORS for i, e in k):
            return None
        ids.update(i for i, _ in k)
    if len(ids) > 8:
        return None
    ids = sorted(ids)
    q = dict(p.m)
    out = []
    while q:
        i = next((i for i in ids if ((i, 2),) in q), None)
        if i is None or q[((i, 2),)] < 0:
            return None
        d = q[((i, 2),)]
        lin = {((i, 1),): Fraction(1)}
        for j in ids:
            if j != i:
                c = q.get(tuple(sorted(((i, 1), (j, 1)))), 0)
                if c:
                    lin[((j, 1),)] = c / (2 * d)
        l = P(lin)
        out.append((d, l))
        q = dict((P(q) - (l * l).scale(d)).m)
    return out


def inv(p):
    c = p.const()
    if c is not None:
        return num(1 / c) if c else atom(("inv", p))
    if len(p.m) == 1:
        (k, v), = p.m.items()
        if all(kind(i) not in INDICATORS for i, _ in k):
            return P({tuple((i, -e) for i, e in k): 1 / v})
    g, rest = content(p)
    if g:
        return P({tuple((i, -e) for i, e in g): Fraction(1)}) * inv(rest)
    l = lead(p)
    return atom(("inv", p.scale(1 / l))).scale(1 / l)


def div(a, b):
    if a == b:
        return ONE
    return a * inv(b)


def lt(a, b):
    """indicator of a < b"""
    d = a - b
    c = d.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    r = by_cases(d, lambda c: c < 0)
    if r is not None:
        return r
    if squares(d):
        return ZERO
    if squares(-d):
        return ONE - eqz(d)
    return atom(("lt0", canon(d)))


def by_cases(d, f, limit=7):
    """the indicator of f(d) when d only depends on conditions"""
    ids = set()
    for k in d.m:
        for i, e in k:
            if kind(i) not in INDICATORS:
                return None
            ids.add(i)
    if len(ids) > limit:
        return None
    i = sorted(ids)[0]

    def fix(val):
        m = {}
        for k, v in d.m.items():
            if any(j == i for j, _ in k):
                if not val:
                    continue
                k = tuple(x for x in k if x[0] != i)
            m[k] = m.get(k, 0) + v
        return P({k: v for k, v in m.items() if v})
    out = []
    for val in (1, 0):
        q = fix(val)
        c = q.const()
        out.append((ONE if f(c) else ZERO) if c is not None else by_cases(q, f, limit))
    x = P({((i, 1),): Fraction(1)})
    return out[1] + x * (out[0] - out[1])


def eq(a, b):
    d = a - b
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    return eqz(d)


def eqz(d):
    """indicator of d == 0"""
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if len(d.m) == 1:
        (k, _), = d.m.items()
        r = ZERO          # any factor is zero
        for i, e in k:
            a = _atoms[i]
            if e < 0 or a[0] == "inv":
                continue
            if a[0] == "sqrt" and len(a[1].m) <= 2:
                f = eqz(a[1])
            elif a[0] in INDICATORS:
                f = ONE - atom(a)
            else:
                f = atom(("eq0", atom(a)))
            r = r + f - r * f
        return r
    r = by_cases(d, lambda c: c == 0)
    if r is not None:
        return r
    g, rest = content(d)
    if g:
        a, b = eqz(P({g: Fraction(1)})), eqz(rest)
        return a + b - a * b
    for x in (d, -d):
        sq = squares(x)
        if sq:
            r = ONE
            for _, l in sq:
                r = r * eqz(l)
            return r
    # a sum of squares
    if len(d.m) == 2 and all(v > 0 and k and all(e % 2 == 0 and kind(i) == "sym" for i, e in k) for k, v in d.m.items()):
        r = ONE
        for k in d.m:
            r = r * eqz(P({k: Fraction(1)}))
        return r
    return atom(("eq0", eqcanon(d)))


def ite(c, a, b):
    if c == ONE:
        return a
    if c == ZERO:
        return b
    if a == b:
        return a
    return b + c * (a - b)


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d))
    return atom(("sqrt", p))


def _split(p):
    """angle sums are expanded"""
    if len(p.m) > 1 and len(p.m) <= 4 and all(v in (1, -1) and k for k, v in p.m.items()):
        k, v = sorted(p.m.items())[0]
        a = P({k: v})
        return a, p - a
    return None


def _whole(p):
    """a small multiple of an angle: the angle and the rest"""
    if len(p.m) != 1 or p.const() is not None:
        return None
    (k, v), = p.m.items()
    if v.denominator != 1 or not 2 <= abs(v) <= 4:
        return None
    one = P({k: Fraction(1 if v > 0 else -1)})
    return one, p - one


def cos(p):
    c = p.const()
    if c == 0:
        return ONE
    s = _split(p)
    if s:
        return cos(s[0]) * cos(s[1]) - sin(s[0]) * sin(s[1])
    h = _whole(p)
    if h:
        return cos(h[0]) * cos(h[1]) - sin(h[0]) * sin(h[1])
    return atom(("cos", p if p.m and lead(p) > 0 else -p))


def sin(p):
    if p.const() == 0:
        return ZERO
    s = _split(p)
    if s:
        return sin(s[0]) * cos(s[1]) + cos(s[0]) * sin(s[1])
    h = _whole(p)
    if h:
        return sin(h[0]) * cos(h[1]) + cos(h[0]) * sin(h[1])
    return atom(("sin", p)) if lead(p) > 0 else -atom(("sin", -p))


def subst(p, f):
    """replace atoms: f(atom) -> P or None"""
    memo = {}

    def at(i):
        if i in memo:
            return memo[i]
        a = _atoms[i]
        r = f(a)
        if r is None:
            r = rebuild(a, f)
        memo[i] = r
        return r
    out = ZERO
    for k, v in p.m.items():
        t = num(v)
        for i, e in k:
            x = at(i)
            if e > 0:
                t = t * powp(x, e)
            else:
                t = t * powp(inv(x), -e)
        out = out + t
    return out


def rebuild(a, f):
    def go(x):
        if isinstance(x, P):
            return subst(x, f)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    if not any(isinstance(x, (P, tuple)) for x in a[1:]):
        return atom(a)
    b = (a[0],) + tuple(go(x) for x in a[1:])
    if b == a:
        return atom(a)
    k = a[0]
    if k == "lt0":
        return lt(b[1], ZERO)
    if k == "eq0":
        return eq(b[1], ZERO)
    if k == "inv":
        return inv(b[1])
    if k == "sqrt":
        return sqrt(b[1])
    if k == "cos":
        return cos(b[1])
    if k == "sin":
        return sin(b[1])
    return atom(b)


def is_zero(p, budget=8):
    """p == 0 as a rational function (denominators cleared)"""
    for _ in range(budget):
        if not p.m:
            return True
        dens = {}
        for k in p.m:
            for i, e in k:
                if kind(i) == "inv":
                    dens[i] = max(dens.get(i, 0), e)
                elif e < 0:
                    dens[i] = max(dens.get(i, 0), -e)
        if not dens:
            return False
        i, e = sorted(dens.items())[0]
        if kind(i) == "inv":
            d = _atoms[i][1]
            out = ZERO
            for k, v in p.m.items():
                ei = dict(k).get(i, 0)
                rest = tuple(x for x in k if x[0] != i)
                out = out + P({rest: v}) * powp(d, e - ei)
            p = out
        else:
            d = P({((i, 1),): Fraction(1)})
            out = ZERO
            for k, v in p.m.items():
                ei = dict(k).get(i, 0)
                rest = tuple(x for x in k if x[0] != i)
                out = out + P({rest: v}) * powp(d, e + ei)
            p = out
    return not p.m


def same(a, b):
    return a == b or is_zero(a - b)


def indicators(p):
    return sorted((a for a in p.atoms() if a[0] in INDICATORS), key=repr)


def nonneg(p, known=lambda a: False, facts=(), depth=8):
    """p >= 0, by splitting on the undecided conditions of p.

    known(atom) says an atom is never negative; facts are polynomials known to
    be >= 0 on the current branch."""
    c = p.const()
    if c is not None:
        return c >= 0
    ind = indicators(p)
    if ind and depth > 0:
        a = ind[0]
        for val in (ONE, ZERO):
            extra = []
            if a[0] == "lt0":
                extra = [-a[1]] if val is ONE else [a[1]]
            elif a[0] == "eq0" and val is ONE:
                extra = [a[1], -a[1]]
            q = subst(p, lambda x: val if x == a else None)
            fs = tuple(subst(f, lambda x: val if x == a else None) for f in list(facts) + extra)
            if any(f.const() is not None and f.const() < 0 for f in fs):
                continue
            if not nonneg(q, known, fs, depth - 1):
                return False
        return True
    if mono_nonneg(p, known):
        return True
    for f in facts:
        # p = k*f + (nonnegative), k > 0 constant, or times a known factor
        for q in (f,):
            if not q.m or q.const() is not None:
                continue
            for k, v in q.m.items():
                if k in p.m and k != ():
                    r = p.m[k] / v
                    if r > 0 and nonneg0(p - q.scale(r), known, [g for g in facts if g is not f]):
                        return True
                    break
            # one known nonnegative common factor
            for at in q.atoms() | p.atoms():
                if known(at):
                    q2 = q * atom(at)
                    for k, v in q2.m.items():
                        if k in p.m:
                            r = p.m[k] / v
                            if r > 0 and mono_nonneg(p - q2.scale(r), known):
                                return True
                            break
    return False


def nonneg0(p, known, facts):
    if mono_nonneg(p, known):
        return True
    for f in facts:
        for k, v in f.m.items():
            if k in p.m and k != ():
                r = p.m[k] / v
                if r > 0 and mono_nonneg(p - f.scale(r), known):
                    return True
                break
    return False


def mono_nonneg(p, known):
    for k, v in p.m.items():
        if v < 0:
            return False
        for i, e in k:
            if e % 2 and not known(_atoms[i]) and kind(i) not in INDICATORS and kind(i) != "sqrt":
                return False
    return True


def show_atom(a):
    k = a[0]
    if k in ("sym", "bool"):
        return str(a[1])
    return k + "(" + ",".join(show(x) if isinstance(x, P) else str(x) for x in a[1:]) + ")"


def show(p, limit=400):
    if not p.m:
        return "0"
    out = []
    for k, v in p.m.items():
        s = "*".join(show_atom(_atoms[i]) + ("^%d" % e if e != 1 else "") for i, e in k)
        if not s:
            out.append(str(v))
        elif v == 1:
            out.append(s)
        elif v == -1:
            out.append("-" + s)
        else:
            out.append("%s*%s" % (v, s))
    r = " + ".join(out).replace("+ -", "- ")
    return r if len(r) < limit else r[:limit] + "..."


def forced(conds):
    """indicator values implied by conditions that hold"""
    out = {}
    todo = list(conds)
    for c in todo:
        for q, val in ((c, ONE), (ONE - c, None)):
            if len(q.m) == 1:
                (k, v), = q.m.items()
                if v == 1 and k:
                    if val is ONE:
                        for i, _ in k:
                            if kind(i) in INDICATORS:
                                out[_atoms[i]] = ONE
                    elif len(k) == 1 and kind(k[0][0]) in INDICATORS:
                        out[_atoms[k[0][0]]] = ZERO
    for a, v in list(out.items()):
        # below zero is not zero, and its opposite is not below zero
        if a[0] == "lt0" and v is ONE:
            out.setdefault(("lt0", canon(-a[1])), ZERO)
            out.setdefault(("eq0", eqcanon(a[1])), ZERO)
            if len(a[1].m) == 1:
                z = eqz(a[1])
                if len(z.m) == 1:
                    (k, w), = z.m.items()
                    if w == 1 and len(k) == 1:
                        out.setdefault(_atoms[k[0][0]], ZERO)
        elif a[0] == "eq0" and v is ONE:
            out.setdefault(("lt0", canon(a[1])), ZERO)
            out.setdefault(("lt0", canon(-a[1])), ZERO)
    return out


def assume(p, conds):
    f = forced(conds)
    if not f:
        return p
    return subst(p, lambda a: f.get(a))


def diff(p, x, memo=None):
    """derivative by a symbol, conditions held fixed"""
    if memo is None:
        memo = {}
    out = ZERO
    for k, v in p.m.items():
        for n, (i, e) in enumerate(k):
            d = diff_atom(_atoms[i], x, memo)
            if d is None or not d.m:
                continue
            rest = tuple((j, f) for m, (j, f) in enumerate(k) if m != n)
            t = P({rest: v * e})
            if e != 1:
                t = t * (powp(atom(_atoms[i]), e - 1) if e > 0 else P({((i, e - 1),): Fraction(1)}))
            out = out + t * d
    return out


def diff_atom(a, x, memo):
    if a == x:
        return ONE
    if a in memo:
        return memo[a]
    k = a[0]
    r = ZERO
    if k == "inv":
        i = atom(a)
        r = -(i * i) * diff(a[1], x, memo)
    elif k == "sqrt":
        d = diff(a[1], x, memo)
        r = d.scale(Fraction(1, 2)) * P({((aid(a), -1),): Fraction(1)}) if d.m else ZERO
    elif k == "cos":
        d = diff(a[1], x, memo)
        r = -sin(a[1]) * d if d.m else ZERO
    elif k == "sin":
        d = diff(a[1], x, memo)
        r = cos(a[1]) * d if d.m else ZERO
    memo[a] = r
    return r


def empty(cons):
    """the polyhedron of these (linear form over monomials, strict) >= / > 0
    constraints is empty: projection of one monomial after another"""
    rows = []
    for p, strict in cons:
        rows.append(({k: v for k, v in p.m.items() if k}, p.m.get((), 0), strict))
    # monomials that occur with one sign only cannot take part: drop the rows
    while True:
        seen = {}
        for m, c, s in rows:
            for k, v in m.items():
                seen.setdefault(k, set()).add(v > 0)
        keep = [r for r in rows if all(len(seen[k]) == 2 for k in r[0])]
        if len(keep) == len(rows):
            break
        rows = keep
    for _ in range(40):
        if any(not m and (c < 0 or c == 0 and s) for m, c, s in rows):
            return True
        rows = [r for r in rows if r[0]]
        if not rows or len(rows) > 60:
            return False
        cost = {}
        for m, c, s in rows:
            for k, v in m.items():
                a, b = cost.get(k, (0, 0))
                cost[k] = (a + 1, b) if v > 0 else (a, b + 1)
        k = min(cost, key=lambda k: (cost[k][0] * cost[k][1] - sum(cost[k]), repr(k)))
        up = [r for r in rows if r[0].get(k, 0) > 0]
        dn = [r for r in rows if r[0].get(k, 0) < 0]
        new = {}
        for r in rows:
            if k not in r[0]:
                new[(tuple(sorted(r[0].items())), r[1], r[2])] = r
        for m, c, s in up:
            for n, d, t in dn:
                x, y = -n[k], m[k]
                z = {}
                for j in m.keys() | n.keys():
                    v = m.get(j, 0) * x + n.get(j, 0) * y
                    if v:
                        z[j] = v
                e = c * x + d * y
                g = max(abs(v) for v in z.values()) if z else 1
                z = {j: v / g for j, v in z.items()}
                new[(tuple(sorted(z.items())), e / g, s or t)] = (z, e / g, s or t)
        rows = list(new.values())
    return False
