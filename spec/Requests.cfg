SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Windows Once NotStuck LockHeld
