SPECIFICATION MSpec
INVARIANTS PrintedIsPrefix SuccessIsComplete FailureIsFirst
PROPERTY Ends
CHECK_DEADLOCK FALSE
