SPECIFICATION Spec
CONSTANTS
NM = 3
NS = 3
NT = 2
EVERY = 1
INVARIANTS DisjointOk CoverOk NotYetOk EnrolledOk ScoreOk TurnOk SoftOk Emit
CHECK_DEADLOCK FALSE
