SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InGrid OneSpeedChange LaneReach
PROPERTIES Moves Ends
