SPECIFICATION Spec
INVARIANT Uniform
PROPERTY Poison
CHECK_DEADLOCK FALSE
