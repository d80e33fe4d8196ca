"""Program facts: builds the extractor, runs it over every translation unit of
the repository (plus /verif/tu/*.cpp, which only instantiate the repository's
templates) and loads the merged, type-resolved program."""
import glob, hashlib, json, os, pickle, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import canon

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIMU_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FLAGS = ["-std=c++20", "-DSIMU_OS_LINUX", "-w", "-ferror-limit=20"]


class AnalysisBroken(Exception):
    pass


def _unlink(p):
    try:
        os.unlink(p)
    except FileNotFoundError:
        pass


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tool_path():
    src = os.path.join(VERIF, "tool", "simu_extract.cpp")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "simu_extract-" + _hash([src]))
    if os.path.exists(out):
        return out
    cfg = "/usr/bin/llvm-config-18"
    flags = subprocess.check_output([cfg, "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std=") and f != "-DNDEBUG"]
    libdir = subprocess.check_output([cfg, "--libdir"], text=True).strip()
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-w"] + flags + [
        src, "-o", tmp, "-L" + libdir, "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def repo_sources():
    fs = []
    for root in ("include", "src"):
        for d, _, names in os.walk(os.path.join(REPO, root)):
            for n in names:
                if n.endswith((".hpp", ".h", ".cpp", ".inl")):
                    fs.append(os.path.join(d, n))
    return fs


def units():
    us = []
    for sub in ("math", "physics", "utility"):
        us += sorted(glob.glob(os.path.join(REPO, "src/Simu", sub, "**", "*.cpp"), recursive=True))
    us += sorted(glob.glob(os.path.join(REPO, "src/Simu", "*.cpp")))
    us += sorted(glob.glob(os.path.join(VERIF, "tu", "*.cpp")))
    return us


def load(extra=()):
    """the program, read with extra flags (a configuration) if given"""
    tool = tool_path()
    us = units()
    srcs = repo_sources() + [u for u in us if u.startswith(VERIF)] + [
        os.path.join(VERIF, "tool", "simu_extract.cpp"), os.path.abspath(__file__), canon.__file__, canon.VOCAB]
    key = _hash(srcs, REPO + " ".join(extra))
    stem = "facts-" if not extra else "conf-"
    cache = os.path.join(BUILD, "%s%s.pkl" % (stem, key))
    if os.path.exists(cache) and not os.environ.get("SIMU_NOCACHE"):
        with open(cache, "rb") as f:
            return pickle.load(f)
    tmpd = tempfile.mkdtemp(prefix="simu_facts_")

    def one(i):
        out = os.path.join(tmpd, "%d.json" % i)
        cmd = [tool, out, REPO + "/," + VERIF + "/tu/", us[i], "--"] + FLAGS + list(extra) + [
            "-I" + os.path.join(REPO, "include")]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and us[i].startswith(VERIF):
            # witnesses of an interface that changed: read the others
            work = os.path.join(tmpd, "%d.cpp" % i)
            src = open(us[i]).read().split("\n")
            for attempt in range(4):
                bad = {int(n) for n in re.findall(re.escape(cmd[3]) + r":(\d+):", r.stderr)}
                src = ["" if n in bad and l.rstrip().endswith(";") else l for n, l in enumerate(src, 1)]
                with open(work, "w") as f:
                    f.write("\n".join(src))
                cmd[2], cmd[3] = REPO + "/," + work, work
                r = subprocess.run(cmd, capture_output=True, text=True)
                if not r.returncode:
                    break
            os.unlink(work)
        if r.returncode or not os.path.exists(out):
            raise AnalysisBroken("front end failed on %s:\n%s" % (us[i], r.stderr[-3000:]))
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        return d

    with ThreadPoolExecutor(8) as ex:
        docs = list(ex.map(one, range(len(us))))
    os.rmdir(tmpd)
    ren = canon.renames(docs)
    prog = merge(us, [canon.apply(d, ren) for d in docs])
    prog.renames = ren
    if os.environ.get("SIMU_NOCACHE"):
        return prog
    old = sorted(glob.glob(os.path.join(BUILD, stem + "*.pkl")), key=os.path.getmtime)
    for o in old[:-3]:
        _unlink(o)
    tmp = cache + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(prog, f, protocol=4)
    os.replace(tmp, cache)
    return prog


def load_with(unit):
    """the program together with one more unit, which sees private members"""
    base = load()
    tool = tool_path()
    hdrs = glob.glob(os.path.join(VERIF, "laws", "*.hpp"))
    key = _hash(repo_sources() + [unit] + hdrs + [os.path.join(VERIF, "tool", "simu_extract.cpp"), os.path.abspath(__file__), canon.__file__, canon.VOCAB], REPO + unit)
    cache = os.path.join(BUILD, "law-%s-%s.pkl" % (os.path.basename(unit)[:-4], key))
    if os.path.exists(cache) and not os.environ.get("SIMU_NOCACHE"):
        with open(cache, "rb") as f:
            d = pickle.load(f)
    else:
        fd, out = tempfile.mkstemp(prefix="simu_law_")
        os.close(fd)
        src, dropped, work = open(unit).read(), [], unit
        members = {n: {f["name"] for f in r["fields"]} for n, r in ((r.get("plain") or "", r) for r in base.records.values()) if n.startswith("simu::")}
        for attempt in range(8):
            cmd = [tool, out, REPO + "/," + VERIF + "/laws/," + work, work, "--"] + FLAGS + [
                "-fno-access-control", "-ferror-limit=0"] + canon.macros(base.renames, src, members) + [ "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "laws")]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if work != unit:
                os.unlink(work)
            if not r.returncode:
                break
            src, gone = _without(src, {int(n) for n in re.findall(re.escape(work) + r":(\d+):", r.stderr)})
            if not gone or attempt == 7:
                os.unlink(out)
                raise AnalysisBroken("front end failed on %s:\n%s" % (unit, r.stderr[-3000:]))
            dropped += gone
            fd, work = tempfile.mkstemp(prefix="simu_law_", suffix=".cpp")
            os.write(fd, src.encode())
            os.close(fd)
        with open(out) as f:
            d = canon.apply(json.load(f), base.renames)
        os.unlink(out)
        d["dropped"] = dropped
        if not os.environ.get("SIMU_NOCACHE"):
            for o in sorted(glob.glob(os.path.join(BUILD, "law-%s-*.pkl" % os.path.basename(unit)[:-4])), key=os.path.getmtime)[:-3]:
                os.unlink(o)
            tmp = cache + ".%d" % os.getpid()
            with open(tmp, "wb") as f:
                pickle.dump(d, f, protocol=4)
            os.replace(tmp, cache)
    return add_unit(base, unit, d)


def _without(src, bad):
    """the law file without the laws that no longer type-check at these lines
    (the interface they speak about changed), and their names"""
    lines = src.split("\n")
    start, name, names, cut = None, None, set(), set()
    for n, l in enumerate(lines, 1):
        if re.match(r"(template|inline|void)\b", l) and start is None:
            start, name = n, None
        m = re.search(r"\b((?:law|step|put|up)_\w+)\s*\(", l)
        if m and start is not None and name is None and not l.startswith(" "):
            name = m.group(1)
        if l.startswith("}") and start is not None:
            if name and any(start <= b <= n for b in bad):
                names.add(name)
                cut |= set(range(start, n + 1))
            start = None
    for n, l in enumerate(lines, 1):
        m = re.match(r"\s+((?:law|step|put|up)_\w+)\b", l)
        if n not in cut and m and (n in bad or m.group(1) in names):
            cut.add(n)
            names.add(m.group(1))
    return "\n".join("" if n in cut else l for n, l in enumerate(lines, 1)), sorted(names)


def add_unit(p, unit, d):
    _shift(d, 1000000 * (len(p.units) + 1))
    p.units.append(unit)
    p.dropped = d.get("dropped", [])
    for f in d["functions"]:
        old = p.functions.get(f["id"])
        if old is None or (f.get("body") and not old.get("body")):
            p.functions[f["id"]] = f
    for r in d["records"]:
        p.records.setdefault(r["name"], r)
    for g in d["globals"]:
        old = p.globals.get(g["name"])
        if old is None or ("init" in g and "init" not in old):
            p.globals[g["name"]] = g
    p.index()
    return p


def _shift(n, off):
    """make variable ids unique across translation units"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for k in ("id", "rangeVar", "beginVar", "endVar"):
                v = x.get(k)
                if isinstance(v, int):
                    x[k] = v + off
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        else:
            stack.extend(v for v in x if isinstance(v, (dict, list)))


class Program:
    renames = {}

    def __init__(self):
        self.functions = {}   # id -> function
        self.records = {}     # name -> record
        self.globals = {}     # name -> global
        self.units = []

    # -- indexes -------------------------------------------------------
    def index(self):
        self.byname = {}
        self.overriders = {}
        for f in self.functions.values():
            self.byname.setdefault(f["name"], []).append(f)
            for o in f.get("overrides", []):
                self.overriders.setdefault(o, []).append(f["id"])
        self.recplain = {}
        for r in self.records.values():
            self.recplain.setdefault(r["plain"], []).append(r)

    @property
    def mutated_fields(self):
        """fields changed after construction somewhere in the program"""
        m = self.__dict__.get("_mutated")
        if m is not None:
            return m
        m = set()

        def base(x):
            # the field at the root of an lvalue path
            while isinstance(x, dict):
                if x.get("k") == "mem":
                    m.add(x.get("field"))
                    x = x.get("base")
                elif x.get("k") in ("cast", "un") and "e" in x:
                    x = x["e"]
                elif x.get("k") == "index":
                    x = x.get("a") or x.get("base")
                elif x.get("k") == "call" and x.get("obj"):
                    x = x["obj"]
                else:
                    return
        for f in self.functions.values():
            if not f.get("body"):
                continue
            stack = [f["body"]]
            while stack:
                x = stack.pop()
                if isinstance(x, list):
                    stack.extend(x)
                elif isinstance(x, dict):
                    k = x.get("k")
                    if k == "asg":
                        base(x.get("a"))
                    elif k == "un" and x.get("op") in ("++", "--", "&"):
                        base(x.get("e"))
                    elif k == "call" and x.get("obj") is not None and not (x.get("callee") or {}).get("const") and not (x.get("callee") or {}).get("static"):
                        base(x["obj"])
                    stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        self._mutated = m
        return m

    def fns(self, name):
        return [f for f in self.byname.get(name, []) if f.get("body")]

    def fn(self, name):
        c = self.fns(name)
        if not c:
            raise AnalysisBroken("anchor function %s not found" % name)
        return c[0]

    def rec(self, plain):
        c = self.recplain.get(plain)
        if not c:
            raise AnalysisBroken("anchor type %s not found" % plain)
        return c[0]

    def all_overriders(self, fid):
        out, todo = [], [fid]
        while todo:
            x = todo.pop()
            for o in self.overriders.get(x, []):
                if o not in out:
                    out.append(o)
                    todo.append(o)
        return out


def merge(us, docs):
    p = Program()
    p.units = us
    off = 0
    for d in docs:
        _shift(d, off)
        off += 1000000
        for f in d["functions"]:
            old = p.functions.get(f["id"])
            if old is None or (f.get("body") and not old.get("body")):
                p.functions[f["id"]] = f
        for r in d["records"]:
            p.records.setdefault(r["name"], r)
        for g in d["globals"]:
            old = p.globals.get(g["name"])
            if old is None or ("init" in g and "init" not in old):
                p.globals[g["name"]] = g
    p.index()
    return p


if __name__ == "__main__":
    import facts
    load = facts.load
    t = time.time()
    p = load()
    print(len(p.functions), "functions", len(p.records), "records", "%.1fs" % (time.time() - t))
