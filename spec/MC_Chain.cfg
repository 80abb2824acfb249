SPECIFICATION MSpec
INVARIANTS Law LawCancelled
CHECK_DEADLOCK FALSE
