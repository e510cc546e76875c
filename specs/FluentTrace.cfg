SPECIFICATION Spec
VIEW view
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
