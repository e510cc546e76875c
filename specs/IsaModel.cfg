INIT Init
NEXT Next
INVARIANT Lossless
INVARIANT Distinct
INVARIANT Canonical
CHECK_DEADLOCK FALSE
