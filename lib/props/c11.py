"""Vector and matrix arithmetic."""
import laws

EXPLANATION = laws.EXPLANATION
ASSUMPTIONS = laws.ASSUMPTIONS + []
RULES = [lambda prog, rep: laws.check(rep, "algebra", floor=20)]
