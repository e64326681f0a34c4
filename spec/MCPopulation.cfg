SPECIFICATION Spec
CONSTANT Length = 14
INVARIANTS Ordered Spaced Gone
CHECK_DEADLOCK FALSE
