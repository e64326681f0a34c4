SPECIFICATION Spec
CONSTANT Horizon = 140
INVARIANTS NoCollision Slow
CHECK_DEADLOCK FALSE
