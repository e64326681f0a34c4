SPECIFICATION Spec
INVARIANTS Alone Leader Monotone Keeps Changes Overtakes
CHECK_DEADLOCK FALSE
