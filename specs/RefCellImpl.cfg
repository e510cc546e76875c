SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = 4
  Protocol = "cas"
INVARIANTS Exclusive WordOk
PROPERTIES Refines RefusalJustified
CHECK_DEADLOCK FALSE
