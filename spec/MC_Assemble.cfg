SPECIFICATION Spec
INVARIANTS LastWins NoLoneSignature Permutes
PROPERTY Poison
CHECK_DEADLOCK FALSE
