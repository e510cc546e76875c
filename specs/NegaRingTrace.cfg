SPECIFICATION Spec
INVARIANT WellFormed
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
