"""python3-vt lib/run.py <property id>"""
import importlib, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import report


def run(pid):
    m = importlib.import_module("props." + pid.lower())
    return report.main(pid, m.RULES, level=getattr(m, "LEVEL", "other"), explanation=m.EXPLANATION,
                       assumptions=getattr(m, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    sys.exit(run(sys.argv[1]))
