SPECIFICATION Spec
INVARIANTS Increasing Apart Spots
CHECK_DEADLOCK FALSE
