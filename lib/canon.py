"""Members keep the names the rules know them by.

/verif/lib/vocabulary.json lists the members of every class of the library.
A class that lost a member and gained another of the same type (or signature)
renamed it; the facts are then given the name the rules use, so that a check
judges what a member does and not what it is called.
   canon.py        rewrites the vocabulary from the current tree"""
import collections, json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
VOCAB = os.path.join(HERE, "vocabulary.json")


def signature(f):
    return [f.get("ret") or "", [q["type"] for q in f.get("params") or []], bool(f.get("const"))]


def members(docs):
    fields, methods = {}, collections.defaultdict(dict)
    for d in docs:
        for r in d["records"]:
            n = r.get("plain") or ""
            if n.startswith("simu::") and not r.get("lambda") and "lambda" not in n and n not in fields:
                fields[n] = [[f["name"], f["type"]] for f in r["fields"] if not f.get("anon")]
        for f in d["functions"]:
            c = f.get("clsPlain") or ""
            if c.startswith("simu::") and "lambda" not in f["name"] and f["name"].startswith(c + "::") and not f.get("implicit"):
                m = f["name"][len(c) + 2:]
                if re.match(r"[A-Za-z_]\w*$", m) and m != c.rsplit("::", 1)[-1] and not m.startswith("operator"):
                    methods[c].setdefault(m, signature(f))
    return fields, methods


def pair(old, new, loose):
    """[(old name, new name)] of members that only changed their name"""
    on, nn = [n for n, _ in old], [n for n, _ in new]
    gone = [(n, t) for n, t in old if n not in nn]
    come = [(n, t) for n, t in new if n not in on]
    if loose and len(gone) == len(come) == 1 and len(old) == len(new):
        return [(gone[0][0], come[0][0])]
    out = []
    for t in {json.dumps(t) for _, t in gone}:
        a = [n for n, u in gone if json.dumps(u) == t]
        b = [n for n, u in come if json.dumps(u) == t]
        if len(a) == len(b) and (loose or len(a) == 1):
            out += list(zip(a, b))
    return out


def renames(docs):
    """{qualified new name: (old name, new name)}"""
    if not os.path.exists(VOCAB):
        return {}
    v = json.load(open(VOCAB))
    fields, methods = members(docs)
    out = {}
    for c, old in v["fields"].items():
        for o, n in pair(old, fields[c], True) if c in fields else ():
            out[c + "::" + n] = (o, n)
    for c, old in v["methods"].items():
        if c in methods:
            for o, n in pair(sorted(old.items()), sorted(methods[c].items()), False):
                out[c + "::" + n] = (o, n)
    return out


def apply(d, ren):
    if not ren:
        return d
    rx = re.compile(r"\b(%s)\b" % "|".join(re.escape(k) for k in sorted(ren, key=len, reverse=True)))
    sub = lambda m: m.group(1)[:-len(ren[m.group(1)][1])] + ren[m.group(1)][0]
    stack = [d]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            f = x.get("field")
            if isinstance(f, str) and f in ren:
                x["name"] = ren[f][0]
            for i in x.get("inits") or [] if "clsPlain" in x else ():
                q = "%s::%s" % (x["clsPlain"], i.get("field"))
                if q in ren:
                    i["field"] = ren[q][0]
            for k, v in x.items():
                if isinstance(v, str):
                    if "::" in v and k not in ("id", "fn", "file"):
                        x[k] = rx.sub(sub, v)
                elif isinstance(v, (dict, list)):
                    stack.append(v)
            if "fields" in x and "plain" in x:
                for g in x["fields"]:
                    if isinstance(g, dict) and x["plain"] + "::" + g.get("name", "") in ren:
                        g["name"] = ren[x["plain"] + "::" + g["name"]][0]
        else:
            for i, v in enumerate(x):
                if isinstance(v, str):
                    if "::" in v:
                        x[i] = rx.sub(sub, v)
                elif isinstance(v, (dict, list)):
                    stack.append(v)
    return d


def macros(ren, text, fields):
    """flags that let a law file speak of renamed members by their old name"""
    out = []
    for q, (o, n) in sorted(ren.items()):
        c = q[:-len(n) - 2]
        if re.search(r"\b%s\b" % re.escape(o), text) and not any(o in names for k, names in fields.items() if ren.get(k + "::" + n) != (o, n)):
            out.append("-D%s=%s" % (o, n))
    return out


if __name__ == "__main__":
    import facts
    docs = [{"records": list(p.records.values()), "functions": list(p.functions.values())} for p in [facts.load()]]
    f, m = members(docs)
    m = {c: dict(sorted(x.items())) for c, x in sorted(m.items())}
    with open(VOCAB, "w") as fh:
        json.dump({"fields": dict(sorted(f.items())), "methods": m}, fh, indent=0, sort_keys=True)
    print(len(f), "classes", sum(map(len, f.values())), "fields", sum(map(len, m.values())), "methods")
