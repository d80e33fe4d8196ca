"""apply.py <case name> <dir>: materialise a self-test case for debugging"""
import glob, os, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
name, d = sys.argv[1:3]
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
shutil.copytree("/repo/include", d + "/include"); shutil.copytree("/repo/src", d + "/src")
for f in glob.glob(HERE + "/cases_*.py"):
    for c in __import__(os.path.basename(f)[:-3]).CASES:
        if c[2] == name:
            for fn, o, n in c[3]:
                p = os.path.join(d, fn); s = open(p).read(); assert o in s; open(p, "w").write(s.replace(o, n, 1))
