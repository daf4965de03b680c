SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NeverStale CacheRight
