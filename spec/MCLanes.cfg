SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Moves Side Unique Unit
