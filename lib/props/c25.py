"""The spatial index: links, boxes, answers and moves."""
import laws

EXPLANATION = laws.EXPLANATION
ASSUMPTIONS = laws.ASSUMPTIONS + [
    "where a law says so, the cost of a box, the place a leaf is put at, and the renewal of boxes above are replaced by "
    "recorders; each is covered by laws of its own, except which place is cheapest, which no law claims"]
BASE = {"simu::RTree::makeNode": "laws::made", "simu::RTree::deleteNode": "laws::deleted"}
COST = dict(BASE, **{"simu::RTree::area": "laws::cost"})
PUT = dict(COST, **{"simu::BoundingBox::overlaps": "laws::meets", "simu::RTree::insert": "laws::put"})


def answers(prog, rep):
    laws.check(rep, "index", prefix="law_", floor=10, replaced=PUT)


def changes(prog, rep):
    laws.check(rep, "index", prefix="step_", floor=5, replaced=dict(COST, **{"simu::RTree::refit": "laws::renew"}))


def moves(prog, rep):
    laws.check(rep, "index", prefix="put_", floor=1, replaced=PUT)


def above(prog, rep):
    laws.check(rep, "index", prefix="up_", floor=2, replaced=dict(COST, **{"simu::RTree::checkRotations": "laws::still"}))


RULES = [answers, changes, moves, above]
