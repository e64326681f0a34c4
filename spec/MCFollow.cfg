SPECIFICATION Spec
CONSTANT Horizon = 80
INVARIANTS NoCollision Slow
CHECK_DEADLOCK FALSE
