SPECIFICATION Spec
INVARIANTS TilesAll BodyAfterMask PairsBijective
CHECK_DEADLOCK FALSE
