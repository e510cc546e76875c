SPECIFICATION Spec
CONSTANTS
  Threads = {p, q}
  Sizes = {1, 2}
  Aligns = {1, 2}
  MaxLive = 2
  Places = 6
INVARIANTS Separate Fits Bounded
CHECK_DEADLOCK FALSE
