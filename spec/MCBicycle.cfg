SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Frames = 60
INVARIANTS Bounded Settled
