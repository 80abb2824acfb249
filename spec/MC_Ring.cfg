SPECIFICATION Spec
INVARIANT ReadsWhatIsHeld
INVARIANT NoDoubt
INVARIANT NewestOnes
PROPERTY Settles
CHECK_DEADLOCK FALSE
