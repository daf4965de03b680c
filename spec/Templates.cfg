SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS AlwaysThoseOnDisk Whole
