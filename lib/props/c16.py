"""Invalid input is refused, valid input is accepted."""
import laws

EXPLANATION = laws.EXPLANATION + (" A refusal is the condition under which the translated function throws, as a normal form over its input; it must coincide with the "
                                  "condition under which the input is invalid, and nothing may be dereferenced through null before it.")
ASSUMPTIONS = laws.ASSUMPTIONS + ["assertions are compiled in, as they are by default"]
RULES = [lambda prog, rep: laws.check(rep, "reject", floor=8)]
