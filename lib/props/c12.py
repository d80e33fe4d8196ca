"""Linear solving and complementarity."""
import laws

EXPLANATION = laws.EXPLANATION
ASSUMPTIONS = laws.ASSUMPTIONS + ["accuracy of the iterative factorisation in floating point is not decided"]
RULES = [lambda prog, rep: laws.check(rep, "solve", floor=5)]
