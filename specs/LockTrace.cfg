SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTRAINT Track
INVARIANT MutualExclusion
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
