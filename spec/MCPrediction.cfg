SPECIFICATION Spec
INVARIANTS Count Period Lengths Continuous
CHECK_DEADLOCK FALSE
