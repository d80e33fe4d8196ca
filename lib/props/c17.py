"""Nothing is read, or left behind by a constructor, without a value."""
import re
import definite, facts

EXPLANATION = ("Definite-assignment dataflow over every function of the library as resolved, template instantiations included: each constructor must give every "
               "number, flag, pointer and plain record of its class a value on every path (in class, in its initialisers, in its body or in a function of the "
               "class it calls), initialisers read no later field, and no local variable is read on a path that did not write it.")
ASSUMPTIONS = ["a loop that writes elements of an array or record writes those that are read later", "a function given a reference to a non-constant object writes it"]

def mentions(e, field):
    if isinstance(e, list):
        return any(mentions(x, field) for x in e)
    return isinstance(e, dict) and (e.get("field") == field or any(mentions(v, field) for v in e.values() if isinstance(v, (dict, list))))


def validity(prog, cls):
    """the flag that says the object cannot be used"""
    for g in prog.functions.values():
        if g.get("cls") == cls and g["name"].endswith("::isValid") and g.get("body"):
            c = g["body"].get("c") or []
            e = c[-1].get("e") if c and c[-1].get("k") == "return" else None
            while isinstance(e, dict) and e.get("k") == "cast":
                e = e.get("e")
            if isinstance(e, dict) and e.get("k") == "mem":
                return e.get("field")
    return None


def prepared(prog, T, cls, field):
    """written on every path by the step's initialisation of the constraint, before anything is solved"""
    gs = [g for g in prog.functions.values() if g.get("cls") == cls and g["name"].endswith("::initSolve") and g.get("body")]
    return bool(gs) and all(("f", field) in definite.Flow(T, g, [field]).run() for g in gs)


def blank(e):
    """default-initialised without a value of its own"""
    return isinstance(e, dict) and e.get("k") == "ctor" and bool(e.get("default") and e.get("defaulted")) and not e.get("zero") and not e.get("list") and not e.get("args")


def rules(prog, rep):
    T = definite.Types(prog)
    for f in sorted(prog.functions.values(), key=lambda f: (f["file"], f["line"], f["id"])):
        if not f.get("body") or not f["file"].startswith(facts.REPO + "/") or f.get("implicit") or f.get("explicitdefault"):
            continue
        rep.analysed(f)
        where = "%s:%s" % (f["file"].replace(facts.REPO + "/", ""), f["line"])
        fields, need = [], []
        inits = f.get("inits") or []
        deleg = any(i.get("delegating") for i in inits)
        if f.get("ctor") and not deleg:
            rec = prog.records.get(f.get("cls") or "") or T.byname.get(f.get("cls"))
            for x in (rec or {}).get("fields", []):
                if not x["name"] or x.get("static"):
                    continue
                full = f["clsPlain"] + "::" + x["name"]
                fields.append(full)
                if x.get("hasinit") or x["type"].endswith("&") or not T.raw(x["type"]) or rec.get("union"):
                    continue
                need.append((full, x["name"]))
        bad = {}

        def report(pl, name, line, g):
            bad.setdefault((name, g["name"], line), 1)
        fl = definite.Flow(T, f, fields, report)
        given = {x.get("field") for x in inits if x.get("field")}
        st = frozenset()
        if f.get("ctor") and not deleg:
            # a field not among the initialisers is written by its own constructor or default unless raw
            raws = {n for n, _ in need}
            order = [x for x in fields]
            later = set(order)
            done = set()
            byname = {n.rsplit("::", 1)[-1]: n for n in order}
            it = {x.get("field"): x for x in inits if x.get("field")}
            for i in inits:
                if not i.get("field"):
                    st = fl.ev(i.get("e"), st)
                    if i.get("base") and not f.get("copyctor") and not f.get("movector") and blank(i.get("e")):
                        need += [(n, n.rsplit("::", 1)[-1]) for n in T.open_fields(i["base"])]
                        fl.fields |= set(T.open_fields(i["base"]))
            for n in order:
                short = n.rsplit("::", 1)[-1]
                x = it.get(short)
                if x is not None:
                    st = fl.ev(x.get("e"), st)
                    if not (blank(x.get("e")) and n in raws):
                        st = st | {("f", n)}
                elif n not in raws:
                    st = st | {("f", n)}
        flag = validity(prog, f.get("cls")) if f.get("ctor") else None
        if flag:
            fl.excuse = lambda c: mentions(c, flag)
        out = fl.run(st)
        for (name, fn, line) in sorted(bad, key=str):
            w = "%s:%s" % (where.rsplit(":", 1)[0], line)
            rep.check(False, "written-before-read", "%s in %s" % (name, fn), w, "%s is read in %s on a path on which nothing was stored in it" % (name, fn))
        rep.ok("written-before-read", f["id"])
        for full, short in need:
            if ("f", full) not in out and prepared(prog, T, f["cls"], full):
                rep.ok("prepared-before-solving", "%s %s" % (f["id"], short))
                continue
            rep.check(("f", full) in out, "constructors-complete", "%s %s" % (f["id"], short), where,
                      "%s may leave %s without a value" % (f["name"], short))
    rep.floor("written-before-read", 100)
    rep.floor("constructors-complete", 10)


RULES = [rules]
