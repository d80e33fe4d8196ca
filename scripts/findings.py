"""writes known_findings.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C08", "d62ace0", "~Body read the list node of the collider it had just erased"),
 ("C17", "e36e7ed", "the bounding box of an empty vertex range was left uninitialised"),
 ("C17", "c06bed9", "RTree move construction swapped an uninitialised root into its source"),
 ("C16", "8e4cb9d", "DistanceConstraint rejected a minimal distance given without a maximal one"),
 ("C02", "a97a087", "setContactFactory left bodies pointing at the contacts it destroyed"),
 ("C10", "38bc7cf", "a body spinning clockwise at any speed was considered immobile and put to sleep"),
 ("C24", "6850d9e", "a moved ScopedTimer lost its measure"),
 ("C16", "2768bb5", "a null body was dereferenced before Constraint could reject it"),
 ("C15", "5fee6f9", "LimitsSolver with equal limits dereferenced an empty limit when solving positions"),
 ("C01", "741d6f1", "contacts were destroyed without onDestruction, and before the other objects were asked whether they die"),
 ("C24", "76631c8", "the library did not compile with SIMU_NO_PROFILER"),
 ("C22", "8b7f61f", "adding or removing a collider ignored the motion of the centroid (the velocity correction was always zero)"),
 ("C05", "c08aa4f", "two overlapping structural bodies made World::step throw while creating a contact that cannot be solved"),
 ("C03", "c7c8fe8", "a refused collider description left the collider listed in its body without an index entry (its destruction then crashed)"),
]
out = [{"property": p, "status": "fixed", "commit": c, "key": "", "text": "fixed: property=%s %s %s" % (p, c, t)} for p, c, t in FIXED]
json.dump({"findings": out}, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
