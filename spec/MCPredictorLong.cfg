SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS R = 2 Deviations = 2 Signs = TRUE
INVARIANTS Inside Certain
