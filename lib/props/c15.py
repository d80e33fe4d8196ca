"""Constraint solvers and limits."""
import laws

EXPLANATION = laws.EXPLANATION
ASSUMPTIONS = laws.ASSUMPTIONS + []
RULES = [lambda prog, rep: laws.check(rep, "solvers", floor=3), lambda prog, rep: laws.check(rep, "limits", floor=6)]
