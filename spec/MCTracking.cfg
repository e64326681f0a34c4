SPECIFICATION Spec
CONSTANTS Frames = 15
 Horizon = 130
INVARIANTS SpeedBetween Settles Overshoot Forth OnCurve
CHECK_DEADLOCK FALSE
