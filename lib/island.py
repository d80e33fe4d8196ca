"""Shared by the rules about groups of bodies solved together."""
from world import *

SOLVER = ("initSolve", "warmstart", "solveVelocities", "solvePositions", "isActive")
BODY = "simu::Body"
GROW = {"emplace_back", "push_back", "emplace", "insert", "resize", "assign", "reserve", "shrink_to_fit", "operator=", "swap", "append_range"}
SHRINK = {"pop_back", "clear", "erase"}


class Group:
    """the containers of a group, found by the types of their elements"""

    def __init__(self, p):
        self.p = p
        rec = None
        for r in p.records.values():
            ts = [f["type"] for f in r["fields"] if std_container(f["type"])]
            if any(self.elem_type(t) == "simu::Position" for t in ts) and any(self.elem_type(t) == "simu::Velocity" for t in ts):
                rec = r
        if rec is None:
            raise AnalysisBroken("no class holding the poses and velocities of a group of bodies")
        self.rec = rec
        self.kind = {}
        for f in rec["fields"]:
            if not std_container(f["type"]):
                continue
            e = self.elem_type(f["type"])
            n = rec["plain"] + "::" + f["name"]
            if e == "simu::Position":
                self.kind[n] = "P"
            elif e == "simu::Velocity":
                self.kind[n] = "V"
            elif e == BODY + "*":
                self.kind[n] = "B"
            elif e and e.endswith("*") and derives(p, e[:-1], "simu::Constraint"):
                self.kind[n] = "L:" + f["name"]
        ks = sorted(self.kind.values())
        self.lists = [k for k in ks if k.startswith("L:")]
        if not {"P", "V", "B"} <= set(ks) or not self.lists:
            raise AnalysisBroken("group of bodies: expected lists of bodies, constraints, poses and velocities in %s, found %s" % (rec["plain"], ks))

    @staticmethod
    def elem_type(t):
        import re
        m = re.match(r"(?:class |struct )?std::(?:vector|list|deque)<(.*)", t)
        if not m:
            return None
        depth, out = 0, ""
        for ch in m.group(1):
            if ch == "<":
                depth += 1
            if ch == ">":
                depth -= 1
            if depth < 0 or ch == "," and depth == 0:
                break
            out += ch
        return out.replace("class ", "").replace("const ", "").replace(" ", "")

    def cont(self, t):
        """kind of a term that denotes a container of the group"""
        t = deep_strip(t)
        if isinstance(t, tuple) and t[0] == "fld":
            return self.kind.get(t[2])
        return None

    def elem(self, t):
        """kind of the container t is an element of; ('slot' for poses and
        velocities reached through the index of a listed body)"""
        t = deep_strip(t)
        if not isinstance(t, tuple):
            return None
        if t[0] == "elem":
            return self.cont(t[1])
        if t[0] == "idx":
            k = self.cont(t[1])
            if k in ("P", "V") and self.index_of(t[2]):
                return k
        if t[0] == "idx" and self.cont(t[1]) in ("B",):
            return "B"
        return None

    def index_of(self, t):
        """the body whose index t is"""
        t = deep_strip(t)
        if isinstance(t, tuple) and t[0] == "fld" and t[2] == self.index_field(self.p):
            return t[1]
        return None

    @staticmethod
    def index_field(p):
        c = getattr(p, "_index_field", None)
        if c is None:
            b = p.rec(BODY)
            ints = [f["name"] for f in b["fields"] if f["type"].split()[-1] in ("int", "long", "short", "Int32") or f["type"] == "int"]
            if len(ints) != 1:
                raise AnalysisBroken("the index of a body in its group was not found: %s" % ints)
            c = p._index_field = BODY + "::" + ints[0]
        return c


def is_solver(p, ev):
    short = ev.name.split("::")[-1]
    cls = "::".join(ev.name.split("::")[:-1])
    return short if ev.kind == "call" and short in SOLVER and derives(p, cls, "simu::Constraint") else None


def opaque_solver(p):
    def op(f):
        n = f["name"].split("::")
        return world_opaque(f) or n[-1] in SOLVER and derives(p, "::".join(n[:-1]), "simu::Constraint") or n[-1] == "interactsAsStructural"
    return op


def setting(p, t, words):
    """t is a field of the settings whose name has these words"""
    t = deep_strip(t)
    return isinstance(t, tuple) and t[0] == "fld" and "Settings" in t[2] and all(w in t[2].split("::")[-1].lower() for w in words)
