SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS AtMostOnce Needed SameForAll Computed NotStuck
PROPERTY Ends
