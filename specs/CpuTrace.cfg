CONSTANT PageSize = 4096
SPECIFICATION Spec
VIEW view
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Handlers = 2
