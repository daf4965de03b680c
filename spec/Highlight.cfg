SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AllThere Transformed OnlyMatches NoEmptyText
