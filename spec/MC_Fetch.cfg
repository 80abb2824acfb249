SPECIFICATION Spec
INVARIANTS Told WithinLimit OneEach StoredTruly
PROPERTY Ends
CHECK_DEADLOCK FALSE
