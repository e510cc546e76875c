SPECIFICATION Spec
CONSTANT PageSize = 4
CONSTANT Pages = 6
CONSTANT MaxLen = 5
CONSTANT Stack <- StackAt
CONSTANT StackSize <- StackLen
INVARIANT OwnedDisjoint
INVARIANT OwnedMapped
INVARIANT NoNull
PROPERTY Pushes
PROPERTY Refines
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
