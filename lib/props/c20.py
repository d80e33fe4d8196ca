"""Contacts: manifolds and their constraints."""
import laws

EXPLANATION = laws.EXPLANATION
ASSUMPTIONS = laws.ASSUMPTIONS + ["the solution of the two-point contact problem is whatever its solver returns (the solver has its own property)"]
SEARCH = {"simu::Gjk::Gjk": "laws::searched", "simu::Gjk::penetration": "laws::answered"}
RULES = [lambda prog, rep: laws.check(rep, "manifold", floor=3),
         lambda prog, rep: laws.check(rep, "contact", uninterpreted=["simu::LcpSolver::solve"], floor=6),
         lambda prog, rep: laws.check(rep, "refresh", uninterpreted=["simu::furthestVertexInDirection"], replaced={"simu::ContactManifold::update": "laws::updated"}, floor=4),
         lambda prog, rep: laws.check(rep, "touching", replaced=SEARCH, floor=2)]
