SPECIFICATION Spec
INVARIANT Agrees
INVARIANT Invertible
INVARIANT Exact
PROPERTY Stays
CHECK_DEADLOCK FALSE
