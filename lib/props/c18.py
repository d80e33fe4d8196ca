"""Motors."""
import laws

EXPLANATION = laws.EXPLANATION
ASSUMPTIONS = laws.ASSUMPTIONS + []
RULES = [lambda prog, rep: laws.check(rep, "motors", floor=4)]
