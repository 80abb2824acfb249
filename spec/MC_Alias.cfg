SPECIFICATION Spec
INVARIANT Deterministic
PROPERTIES FilesIndependent BufsIndependent
CHECK_DEADLOCK FALSE
