SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Readers = {r1, r2}
  Versions = {1, 2, 3}
  MaxEdits = 4
  Design = "handle"
INVARIANTS Fresh CacheRight
