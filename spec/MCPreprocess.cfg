SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ControlledStay SimplifyIdempotent LaneSet
