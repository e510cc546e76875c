SPECIFICATION Spec
CONSTANTS
  Threads = {p}
  Sizes = {1, 2}
  Aligns = {1, 2}
  MaxLive = 3
  Places = 7
INVARIANTS Separate Fits Bounded
CHECK_DEADLOCK FALSE
