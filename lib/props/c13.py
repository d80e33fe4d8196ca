"""Rigid transforms."""
import laws

EXPLANATION = laws.EXPLANATION
ASSUMPTIONS = laws.ASSUMPTIONS + []
RULES = [lambda prog, rep: laws.check(rep, "transform", floor=8)]
