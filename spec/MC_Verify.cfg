SPECIFICATION MSpec
INVARIANTS Law Marks Late
CHECK_DEADLOCK FALSE
