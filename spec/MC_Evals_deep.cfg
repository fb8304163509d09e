SPECIFICATION Spec
CONSTANTS
NM = 4
NS = 3
NT = 3
EVERY = 1
INVARIANTS DisjointOk CoverOk NotYetOk EnrolledOk ScoreOk TurnOk SoftOk Emit
CHECK_DEADLOCK FALSE
