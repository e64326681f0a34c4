SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Once Foot Isometry Range1
