SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Readers = {r1, r2}
  Versions = {1, 2, 3}
  MaxEdits = 4
  Design = "path"
INVARIANTS Fresh CacheRight
