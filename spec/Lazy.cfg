SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AtMostOnce Needed SameForAll Computed NotStuck
