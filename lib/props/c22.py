"""Mass, pose and velocity of a body."""
import laws

EXPLANATION = laws.EXPLANATION
ASSUMPTIONS = laws.ASSUMPTIONS + ["the collider index of the world neither reads nor writes the body (it has its own property)"]
RULES = [lambda prog, rep: laws.check(rep, "body", floor=6, replaced={"simu::World::addCollider": "laws::indexed", "simu::World::removeCollider": "laws::indexed"})]
