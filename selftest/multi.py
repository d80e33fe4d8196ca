import sys, os, io, json, contextlib, pickle
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import facts, run
out = {}
try:
    B = pickle.dumps(facts.load(), 4)
    real = facts.load
    facts.load = lambda *a: real(*a) if a and a[0] else pickle.loads(B)
except facts.AnalysisBroken as e:
    print(json.dumps({pid: (3, [str(e)[:500]]) for pid in sys.argv[1:]}))
    sys.exit(0)
for pid in sys.argv[1:]:
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        rc = run.run(pid)
    msgs = [l.strip()[:260] for l in buf.getvalue().split("\n") if l.startswith("  ") and "instances" not in l or "BROKEN" in l or "Error" in l]
    out[pid] = (rc, msgs)
print(json.dumps(out))
