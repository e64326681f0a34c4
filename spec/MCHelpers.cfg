SPECIFICATION Spec
CONSTANT N = 8
CHECK_DEADLOCK FALSE
INVARIANTS Units Turns Between Disc Straight Wraps Away Mapped
