"""Nothing is used after it was removed, and nothing is changed while it is walked."""
import facts, lifetime

EXPLANATION = ("Invalidation dataflow over every function as resolved: iterators, references, pointers and loops are tied to the container they lead into (a field, "
               "through accessors and views, or a local), every call is given the set of containers it may change in the library, overriding functions and "
               "callbacks included, and any use of what such a change invalidates is reported, over loop back edges as well.")
ASSUMPTIONS = ["hooks and callables of the user do not change the containers of the world", "containers of the same class and field are not told apart by object"]


def rules(prog, rep):
    L = lifetime.Lifetimes(prog)
    n = [0, 0]
    for f in sorted(prog.functions.values(), key=lambda f: (f["file"], f["line"], f["id"])):
        if not f.get("body") or not f["file"].startswith(facts.REPO + "/") or f.get("implicit"):
            continue
        rel = f["file"].replace(facts.REPO + "/", "")
        found = []
        cnt = [0, 0]

        def count(i):
            cnt[i] += 1
        L.check(f, lambda what, line, why: found.append((what, line, why)), count)
        rep.analysed(f)
        n[0] += cnt[0]
        n[1] += cnt[1]
        for what, line, why in found:
            rep.check(False, "valid-when-used", "%s in %s" % (what, f["name"]), "%s:%s" % (rel, line), "%s is used in %s although %s" % (what, f["name"], why))
        if cnt[1]:
            rep.ok("valid-when-used", f["id"])
        # nothing hands out its own local
        ret = (f.get("ret") or "").rstrip()
        if ret.endswith("&") or ret.endswith("*"):
            rets = []
            lifetime.collect(f["body"], "return", rets)
            params = {q["id"]: q["type"].rstrip() for q in f.get("params") or []}
            decls = {}
            ds = []
            lifetime.collect(f["body"], "decl", ds)
            for d in ds:
                for v in d.get("vars") or []:
                    decls[v["id"]] = (v.get("type") or "").rstrip() + (" static" if v.get("static") else "")
            for r in rets:
                e = lifetime.strip(r.get("e"))
                if ret.endswith("*"):
                    if not (isinstance(e, dict) and e.get("k") == "un" and e.get("op") == "&"):
                        continue
                    e = lifetime.strip(e.get("e"))
                while isinstance(e, dict) and (e.get("k") == "mem" and not e.get("arrow") or e.get("k") == "idx" and e.get("n")):
                    e = lifetime.strip(e.get("base") if e["k"] == "mem" else e.get("a"))
                t = None
                if isinstance(e, dict) and e.get("k") == "var" and not e.get("global"):
                    t = decls.get(e.get("id"), params.get(e.get("id")))
                rep.check(not (t is not None and not t.endswith("&") and not t.endswith("static") and not ("*" in t and ret.endswith("*") is False and False)), "no-local-handed-out",
                          "%s:%s" % (f["id"], r.get("l")), "%s:%s" % (rel, r.get("l")), "%s returns a reference or pointer to its own local" % f["name"])
    rep.notes.append("%d changes of containers and %d iterators, references and walks followed" % tuple(n))
    rep.floor("valid-when-used", 15)
    rep.floor("no-local-handed-out", 10)


RULES = [rules]
