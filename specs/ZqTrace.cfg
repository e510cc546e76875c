SPECIFICATION Spec
INVARIANT AllCanonical
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
