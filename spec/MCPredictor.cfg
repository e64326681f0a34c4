SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS R = 1 Deviations = 2 Signs = TRUE
INVARIANTS Inside Certain
