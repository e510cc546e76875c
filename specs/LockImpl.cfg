SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = 2
  AllowKeep = TRUE
INVARIANTS MutualExclusion WordOk
PROPERTIES Refines KeptForever Progress
CHECK_DEADLOCK FALSE
