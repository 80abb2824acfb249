SPECIFICATION MSpec
INVARIANTS MarkIsLast NeverForged Recovered RawKept
CHECK_DEADLOCK FALSE
