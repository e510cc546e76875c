SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW view
CONSTANT PageSize = 4096
CONSTANT Pages = 1048576
