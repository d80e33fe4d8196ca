"""Constraint rates and impulses."""
import laws

EXPLANATION = laws.EXPLANATION
ASSUMPTIONS = laws.ASSUMPTIONS + []
RULES = [lambda prog, rep: laws.check(rep, "constraints", floor=3), lambda prog, rep: laws.check(rep, "built", floor=3)]
